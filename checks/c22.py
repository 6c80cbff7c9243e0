"""C22: the Go binding against exact mathematics; arguments re-read after every call."""
import random
import gobuild
import gogen


def gen(t):
    rnd = random.Random(t[0])
    out = []
    for _ in range(t[1]):
        out.append(gogen.fieldcase(rnd, 60, False))
        out.append(gogen.pointcase(rnd, 40, False))
        out.append(gogen.sigcase(rnd, 10, False))
        out.append(gogen.egcase(rnd, 10, False))
        out.append(gogen.curvecase(rnd, 8))
    return out


def run(ctx):
    ctx.rule = ('histories of Go calls on elements, curves, points, signatures and ciphertexts with negative, huge and boundary integers, receivers re-used across fields and curves, damaged encodings, '
                'strings with NULs and mismatched operands; each result against the reference, each argument re-read after the call; distinct = (operation, group, operands)')
    drv = gobuild.build('a')
    ctx.drive(drv, gen, [(ctx.rnd.getrandbits(64), 5) for _ in range(ctx.pick(24, 320))])
