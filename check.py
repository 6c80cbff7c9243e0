#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import vlib


def go(pid):
    m = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, getattr(m, 'LEVEL', 'exploration'))
    t = vlib.watchdog(ctx, ctx.pick(780, 24 * 3600))
    try:
        m.run(ctx)
    except vlib.BuildError:
        raise
    except Exception:
        if not ctx.viol:
            raise
        traceback.print_exc()   # what was observed before still counts
    t.cancel()
    return ctx.finish()


if __name__ == '__main__':
    vlib.main(go)
