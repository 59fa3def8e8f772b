"""The BEMProblem harness and helpers for its specifications."""
from vc import *
import build


def harness(main='bem.cc', stubs=('bemstub.cc',), **kw):
    return Harness(main, ['bem_problem'], libs=build.TRI, models=['models/trilinos.cc'], stubs=stubs,
                   plain=['computational_domain', 'singular_kernel_integral', 'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block'], **kw).build()


def inputs(ctx, h, args, lo=-2, hi=2, ranges=(), fixed=()):
    """setup() over every program input (floating point), each a free variable"""
    p = ctx.sym(h, None, args)
    names = list(p.vars)
    rg = {n: (lo, hi) for n in names}
    for pre, a, b in ranges:
        for n in names:
            if n.startswith(pre) and n[len(pre):].replace('_', '').isdigit(): rg[n] = (a, b)
    val = {n: round(ctx.rng.uniform(lo, hi), 3) for n in names for pre in fixed if n.startswith(pre) and n[len(pre):].replace('_', '').isdigit()}
    state = {}

    def setup():
        r = Ring(); sub = {n: r.const(val[n]) if n in val else r.var(n, *rg[n]) for n in names}
        state['r'] = r; state['sub'] = sub
        return r, sub
    return setup, state, p


def mv(r, A, x):
    """sum_j A(i,j) x_j for a callable A"""
    n = len(x); o = []
    for i in range(n):
        t = r.const(0)
        for j in range(n): t = t + A(i, j) * x[j]
        o.append(t)
    return o


def groups(meta):
    """unknowns by position, in increasing order: the double nodes, from the mesh alone"""
    n = int(meta['n']); at = {}
    for i in range(n): at.setdefault(meta['p%d' % i], []).append(i)
    return [at[meta['p%d' % i]] for i in range(n)]


def leader(g, dirichlet):
    for i in g:
        if dirichlet(i): return i
    return g[0]
