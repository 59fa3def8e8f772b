"""Checks whose outputs are named after what they must equal: 'what|input+input' or 'what=integer'."""
from vc import *


def named_spec(r, d, sub):
    o = {}
    for n in d.outs:
        if '|' in n:
            t = r.const(0)
            for x in n.split('|')[-1].split('+'):
                t = t + sub[x]
            o[n] = t
        else:
            o[n] = r.const(float(n.rsplit('=', 1)[1]))
    return o


def auto(ctx, h, args, label, tol=1e-9, lo=-2, hi=2, ints=None, **kw):
    """every program input is a free variable in its own range"""
    probe = ctx.sym(h, None, args)
    names = list(probe.vars); widths = {k: v[1] for k, v in probe.vars.items()}
    state = {}

    def setup():
        r = Ring(); sub = {}
        for n in names:
            if widths[n] & 256: sub[n] = r.var(n, lo, hi)
            else: sub[n] = r.var(n, 0, 2 ** 30)
        state['sub'] = sub
        return r, sub
    return explore(ctx, h, args, setup, lambda r, d: named_spec(r, d, state['sub']), tol, label=label, intvars={n for n in names if not widths[n] & 256}, **kw)
