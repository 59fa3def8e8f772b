import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def body(c):
    h = Harness('geo.cc', ['bem_problem'], libs=build.TRI, models=['models/trilinos.cc', 'models/fev.cc'],
                plain=['computational_domain', 'singular_kernel_integral', 'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block', 'bem_fma']).build()
    cases = []
    for geo in ('corner', 'warped', 'sphere'):
        for deg in (1, 2) + ((3,) if c.thorough else ()):
            for seq in ('i', 'ii', 'iri') + (('igii', 'iriri', 'gri') if c.thorough else ()):
                cases.append((geo, deg, seq, 'spheroid', 'spherical'))
        cases += [(geo, 1, 'iri', 'no', 'spherical'), (geo, 1, 'ii', 'spheroid', 'flat')]
    c.bounds += ['two faces meeting at an edge, a warped strip, two cells on a sphere; (mesh, degree, sequence of i=set-up, r=local refinement, g=global refinement, spheroid, manifold) = %s' % cases, 'all axes in [0.1,10]; every position unknown of the geometry']
    c.outside += ['the mapping "Q", which ignores the axes', 'the positions of the mesh itself (deal.II and the mesh file)', 'more than one process']
    for case in cases:
        p = c.sym(h, None, case); m = p.meta; N = int(m['N'])
        if case[4] == 'spherical' and case[3] == 'spheroid' and len(p.vars) != 3: raise NoAnswer('axes are not read')
        st = {}
        def setup():
            r = Ring(); sub = {v: r.var(v, Fraction(1, 10), 10) for v in p.vars}; st['sub'] = sub
            return r, sub
        def spec(r, d):
            o = {}
            for i in range(N):
                k, x = m['p%d' % i].split(); k = int(k)
                o['x%d' % i] = r.const(0) if 'h%d' % i in m else st['sub'].get('a%d' % k, r.const(1)) * float(x) if case[3] == 'spheroid' and case[4] == 'spherical' else r.const(float(x))
            return o
        explore(c, h, case, setup, spec, 1e-9, label='geometry %s' % ' '.join(map(str, case)))
        if c.violations: return


if __name__ == '__main__':
    main('S24', body)
