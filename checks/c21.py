"""C21: misuse, reference counts, memory growth and lifetimes of the Python binding under ASan/UBSan."""
import pyrun


def run(ctx):
    ctx.rule = ('distinct = different (call, argument types, outcome) in the misuse part, (expression, curve form) in the growth part, whole histories in the lifetime part')
    ctx.assumptions = ['extension and C library compiled with ASan and UBSan, PYTHONMALLOC=malloc', 'an object whose __init__ did not succeed may only raise',
                       'memory growth: fixed moduli and curves (fields are interned for good by design)']
    q = ctx.pick(1, 8)
    tasks = [('misuse', 4 * q)] * 8 + [('growth', 1)] * (6 * q) + [('lifetimes', 12 * q)] * 6 + [('callbacks', 2 * q)] * 4
    pyrun.run(ctx, 'pyc21.py', tasks)
