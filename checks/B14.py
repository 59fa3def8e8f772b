import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def body(c):
    h = harness()
    c.bounds += ['8 unknowns on two unconnected quadrilaterals; every matrix entry, vector entry, solid angle, node indicator and previous content of the result in [-2,2]; direct matrices and the fast product (near and far part arbitrary); each routine called twice or three times']
    c.bounds += ['with no Dirichlet boundary the operator is checked for all vectors at fixed (random) matrices and solid angles']
    c.outside += ['the fast product itself, replaced by arbitrary near and far matrices (other properties)', 'more than one process']
    for what in ('vmult', 'rhs'):
        for meth in ('direct', 'fma'):
            for bc in ('mixed', 'neumann'):
                setup, st, p = inputs(c, h, [what, meth, bc], fixed=['N', 'D', 'Nn', 'Nf', 'Dn', 'Df', 'a'] if bc == 'neumann' and what == 'vmult' else ())

                def core(r, x, shift=None):
                    s = st['sub']; n = 8
                    if meth == 'direct':
                        N = lambda i, j: s['N%d_%d' % (i, j)]; D = lambda i, j: s['D%d_%d' % (i, j)]
                    else:
                        N = lambda i, j: s['Nn%d_%d' % (i, j)] + s['Nf%d_%d' % (i, j)]; D = lambda i, j: s['Dn%d_%d' % (i, j)] + s['Df%d_%d' % (i, j)]
                    nm, dm = ('n', 'd') if what == 'vmult' else ('d', 'n')
                    ph = [s['%s%d' % (nm, i)] * (x[i] - shift if shift is not None else x[i]) for i in range(n)]
                    dp = [s['%s%d' % (dm, i)] * x[i] for i in range(n)]
                    a = mv(r, N, ph); b = mv(r, D, dp); sg = 1 if what == 'vmult' else -1
                    return [(a[i] + s['a%d' % i] * ph[i] - b[i]) * sg for i in range(n)]

                def spec(r, d):
                    x = [st['sub']['x%d' % i] for i in range(8)]; y = core(r, x); o = {}
                    for i in range(8): o['y%d' % i] = o['again%d' % i] = y[i]; o['src%d' % i] = x[i]
                    return o

                def norm(r, v):
                    t = r.const(0)
                    for x in v: t = t + x * x
                    return t.sqrt()

                def shifted(r, d):
                    x = [st['sub']['x%d' % i] for i in range(8)]; y = core(r, x, norm(r, x)); nn = norm(r, y); o = {}
                    for i in range(8): o['y%d' % i] = o['again%d' % i] = y[i] - nn; o['src%d' % i] = x[i]
                    return o
                explore(c, h, [what, meth, bc], setup, spec, 1e-9, label='%s %s %s' % (what, meth, bc),
                        alts=[('pure-neumann-shift', shifted)] if bc == 'neumann' and what == 'vmult' else [])


if __name__ == '__main__':
    main('B14', body)
