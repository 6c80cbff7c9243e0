"""Builds the Go binding of the working tree together with the driver harness/gdrv."""
import os
import shutil
import subprocess
import vlib


def goenv(d):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('GO', 'CGO_')):
            del e[k]
    e.update(GO111MODULE='off', GOPATH=os.path.join(d, 'gopath'), GOCACHE=os.path.join(vlib.BUILD, 'gocache'), GOFLAGS='', GOTOOLCHAIN='local',
             GOPROXY='off', CGO_ENABLED='1', CC='gcc', GOTELEMETRY='off', HOME=d)
    return e


def build(variant, asan=True, race=False, hook=False):
    """-> path of the driver.  hook: every C call of the binding enters through __cyg_profile_func_enter"""
    csrc = vlib.repo_files('src/*.c')
    hdrs = vlib.repo_files('include/*.h', 'include/ecc/*.h')
    gos = [f for f in vlib.repo_files('ecgo/*.go', 'ecgo/*.c', 'ecgo/*.h') if not f.endswith('_test.go')]
    h = vlib.VERIF + '/harness/'
    mine = [h + 'gdrv/main.go', h + 'gdrv_hook.c'] + ([h + 'gmpwrap.c'] if asan else [])
    fl = ['-g', '-O1', '-fno-omit-frame-pointer', '-fPIC', '-w'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if asan else [])
    d, fresh = vlib.build_dir('go' + variant, csrc + hdrs + gos + mine, (asan, race, hook))
    drv = os.path.join(d, 'gdrv')
    if not fresh:
        return drv
    inc = ['-I' + os.path.join(vlib.REPO, 'include')]
    jobs, objs = [], []
    for s in csrc + mine[1:]:
        o = os.path.join(d, os.path.basename(s) + '.o')
        objs.append(o)
        jobs.append(['gcc', *fl, *inc, '-c', s, '-o', o])
    vlib.run_jobs(jobs)
    lib = os.path.join(d, 'lib')
    os.makedirs(lib)
    vlib.sh(['ld', '-r', '-o', os.path.join(d, 'all.o'), *([x[4:] for x in vlib.GMPWRAP] if asan else []), *objs])
    vlib.sh(['ar', 'rcs', os.path.join(lib, 'libecc.a'), os.path.join(d, 'all.o')])
    for pkg in ('ecgo', 'gdrv'):
        os.makedirs(os.path.join(d, 'gopath', 'src', pkg))
    for f in gos:
        shutil.copy(f, os.path.join(d, 'gopath', 'src', 'ecgo'))
    shutil.copy(mine[0], os.path.join(d, 'gopath', 'src', 'gdrv'))
    if hook:
        with open(os.path.join(d, 'gopath', 'src', 'ecgo', 'vf_flags.go'), 'w') as fh:
            fh.write('package ecgo\n\n// #cgo CFLAGS: -finstrument-functions\nimport "C"\n')
    e = goenv(d)
    e['CGO_CFLAGS_ALLOW'] = '.*'
    e['CGO_CFLAGS'] = '-g -O1 -fno-omit-frame-pointer -I' + os.path.join(vlib.REPO, 'include')
    e['CGO_LDFLAGS'] = '-L' + lib + (' -fsanitize=address,undefined' if asan else '')
    vlib.sh(['go', 'build', '-p', '8', *(['-asan'] if asan else []), *(['-race'] if race else []), '-o', drv, 'gdrv'],
            cwd=os.path.join(d, 'gopath', 'src', 'gdrv'), env=e)
    open(os.path.join(d, '.done'), 'w').close()
    return drv
