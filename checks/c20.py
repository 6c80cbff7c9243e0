"""C20: the Python binding against exact mathematics (reference in the same process, extension under ASan/UBSan)."""
import pyrun


def run(ctx):
    ctx.rule = 'distinct = different (operation, modulus or curve, operand values) whose result was compared with the reference'
    ctx.assumptions = ['reference: lib/ecref.py over Python integers', 'comparison of a field element with an int compares its representative in [0, p)',
                       'CPython 3.12 of the sandbox; hash modules written in Python']
    n, per = ctx.pick((16, 4), (64, 40))
    pyrun.run(ctx, 'pyc20.py', [('names', 1)] + [('mix', per)] * n)
