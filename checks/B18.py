import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def fl(s): return [float(x) for x in s.split(',') if x]
def il(s): return [int(x) for x in s.split(',') if x]


def body(c):
    h = Harness('rec.cc', ['bem_problem'], libs=build.TRI, models=['models/trilinos.cc', 'models/fev.cc'], stubs=('bemstub.cc', 'recstub.cc', 'fevstub.cc'),
                plain=['computational_domain', 'singular_kernel_integral', 'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block']).build()
    cases = []
    for what in ('normals', 'gradients', 'surface'):
        cases += [(what, 'corner', 1, 1, 2, 'once'), (what, 'hanging', 1, 1, 2, 'twice'), (what, 'corner', 1, 1, 3, 'twice')]
        if c.thorough: cases += [(what, 'corner', 1, 1, 4, 'twice'), (what, 'hanging', 2, 2, 2, 'once'), (what, 'corner', 2, 2, 3, 'twice'), (what, 'hanging', 1, 1, 4, 'once')]
    c.bounds += ['two faces meeting at an edge, and a warped strip with one refined cell (hanging nodes); (quantity, mesh, scalar degree, vector degree, quadrature order, first or repeated call) = %s' % cases,
                 'all potentials, normal derivatives and solver answers in [-2,2], all quadrature weights in [0.1,2], all normal components in [-2,2], independently']
    c.outside += ['the iteration of the linear solver (its answer is arbitrary here) and its preconditioner', 'shape functions and their surface gradients at the quadrature points of these meshes (deal.II)', 'scalar and vector elements of different degree (the code numbers both together and does not support it)', 'more than one process']
    c.assumptions.append('the condensation of hanging nodes and the interpolation at quadrature points are deal.II operations, modelled and checked against the library on every run')
    for case in cases:
        p = c.sym(h, None, case); m = p.meta; n, N, cells, nq = int(m['n']), int(m['N']), int(m['cells']), int(m['points']); ru = int(m['rule'])
        if case[1] == 'hanging' and int(m['hanging']) == 0: raise NoAnswer('no hanging nodes')
        if m['solves'] != ('4' if case[5] == 'twice' else '1'): raise NoAnswer('the solver stand-in was not used: %s' % m['solves'])
        names = list(p.vars); what = case[0]
        D = [il(m['d%d' % k]) for k in range(cells)]; E = [il(m['e%d' % k]) for k in range(cells)]; vpc = len(E[0]); dpc = len(D[0])
        comp = [int(m['comp%d' % i]) for i in range(vpc)]; vs = [fl(m['v%d' % i]) for i in range(vpc)]; ss = [fl(m['s%d' % i]) for i in range(dpc)]
        ex = {i: ([(int(x.split(':')[0]), float(x.split(':')[1])) for x in m['h%d' % i].split(',') if x] if 'h%d' % i in m else [(i, 1.0)]) for i in range(N)}
        st = {}
        def setup():
            r = Ring(); sub = {}
            for v in names: sub[v] = r.var(v, Fraction(1, 10), 2) if v[0] == 'W' else r.var(v, -2, 2)
            st['sub'] = sub
            return r, sub
        def spec(r, d):
            s = st['sub']; o = {}
            def S_(x): return s['S%d' % x]
            X = {}
            for i in range(N):
                t = r.const(0)
                for k, w in ex[i]: t = t + w * S_(k)
                X[i] = t; o['G%d' % i] = t
                if 'h%d' % i not in m: o['residual%d' % i] = r.const(0)
            for i in range(n): o['f%d' % i] = s['f%d' % i]; o['g%d' % i] = s['g%d' % i]
            for k in range(cells):
                for q_ in range(nq):
                    t = '%d_%d_%d' % (k, ru, q_); W = s['W' + t]; T = fl(m['t%d_%d' % (k, q_)]); want = []
                    for a in range(3):
                        v = r.const(0)
                        if what == 'normals': v = s['m' + t + '_%d' % a]
                        else:
                            for l in range(dpc): v = v + s['f%d' % D[k][l]] * T[3 * l + a]
                        if what == 'gradients':
                            u = r.const(0)
                            for l in range(dpc): u = u + s['g%d' % D[k][l]] * ss[l][q_]
                            v = v + u * s['m' + t + '_%d' % a]
                        for j in range(vpc):
                            if comp[j] == a and abs(vs[j][q_]) > 1e-15: v = v - X[E[k][j]] * vs[j][q_]
                        want.append(v * W)
                    for i in range(vpc):
                        if abs(vs[i][q_]) < 1e-15: continue
                        for x, w in ex[E[k][i]]:
                            o['residual%d' % x] = o['residual%d' % x] - want[comp[i]] * (w * vs[i][q_])
            return o
        explore(c, h, case, setup, spec, 1e-9, reltol=1e-11, label='recovery %s' % ' '.join(map(str, case)), neutral='trilinos_sparse_matrix')
        if c.violations: return


if __name__ == '__main__':
    main('B18', body)
