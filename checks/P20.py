import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def direct(c):
    h = Harness('prec.cc', ['bem_problem'], libs=build.TRI, models=['models/trilinos.cc'], stubs=('bemstub.cc', 'precstub.cc'),
                plain=['computational_domain', 'singular_kernel_integral', 'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block']).build()
    pats = [('DNN', 'first', 'no'), ('NDN', 'again', 'no'), ('NDD', 'again', 'continuous'), ('NNN', 'again', 'no')]
    if c.thorough: pats = [(''.join(p), w, k) for p in ('DNN', 'NDN', 'NND', 'DDN', 'DND', 'NDD', 'DDD', 'NNN') for w in ('first', 'again') for k in ('no', 'continuous')]
    c.bounds.append('direct method: 12 unknowns on three faces of a cube, Dirichlet patterns %s, first and second solve; every entry of both matrices in [-2,2]' % sorted({x[0] for x in pats}))
    for args in pats:
        setup, st, p = inputs(c, h, args); n = int(p.meta['n']); pat = args[0]
        if p.meta['used'] == '0': raise NoAnswer('the solver was not given the captured preconditioner')
        isD = lambda i: pat[int(p.meta['m%d' % i]) - 1] == 'D'
        def spec(r, d):
            s = st['sub']; o = {}
            for i in range(n):
                for j in range(n):
                    k = 'P%d_%d' % (i, j)
                    if p.meta['c%d' % i] == '1': o[k] = r.const(1 if i == j else 0); continue   # other entries: zero or the constraint's
                    e = -s['D%d_%d' % (i, j)] if isD(j) else s['N%d_%d' % (i, j)]
                    if i == j and not isD(i):
                        for l in range(n): e = e - s['N%d_%d' % (i, l)]
                    o[k] = e
            return o
        explore(c, h, args, setup, spec, 1e-9, label='direct %s' % ' '.join(args), neutral='trilinos_sparse_matrix')


def fast(c):
    h = Harness('fmaprec.cc', ['bem_fma', 'octree_block'], libs=build.TRI, models=['models/trilinos.cc'], stubs=('formal.cc', 'fevstub.cc', 'precstub.cc'), extra=('-DPREC_FMA',),
                plain=['local_expansion_coeff', 'ass_leg_function']).build()
    cases = [('graded', 4, 2, 1, 1, 1, 'first'), ('cube', 3, 3, 1, 1, 1, 'again')]
    if c.thorough: cases += [('strip', 4, 3, 1, 2, 2, 'again'), ('tower', 7, 2, 2, 2, 1, 'first'), ('burst1', 6, 1, 1, 1, 1, 'again'), ('graded', 3, 20, 2, 2, 1, 'again')]
    c.bounds.append('fast method: (mesh, octree levels, nodes per block, regular order, singular order, degree, history) = %s; every quadrature weight in [0.1,2], every solid angle and constraint coefficient in [-2,2]' % cases)
    for case in cases:
        setup, st, p = weights(c, h, case)
        if p.meta['used'] != '1': c.violation('fast:used', h, None, case, 'the preconditioner returned is not the one that was initialised'); return
        c.samples.append({'case': case, 'entries stored': p.meta['near'], 'entries left out': p.meta['far']})
        explore(c, h, case, setup, lambda r, d: {k: r.const(0) for k in p.outs if k[0] == 'P'}, 1e-9, label='fast %s' % ' '.join(map(str, case)), neutral='trilinos_sparse_matrix')


def weights(c, h, case):
    p = c.sym(h, None, case); names = list(p.vars); st = {}
    def setup():
        r = Ring(); sub = {v: r.var(v, Fraction(1, 10), 2) if v[0] == 'W' else r.var(v, -2, 2) for v in names}; st['sub'] = sub
        return r, sub
    return setup, st, p


def body(c):
    c.outside += ['the factorisation itself and the iteration (library code)', 'entries outside the stored pattern', 'more than one process', 'for the fast method the correctness of the near matrices themselves (F11)']
    direct(c)
    if not c.violations: fast(c)


if __name__ == '__main__':
    main('P20', body)
