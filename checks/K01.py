import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from vc import *
from harm import Sph


def body(c):
    h = Harness('kernels.cc', []).build()
    c.bounds += ['every separation vector R with 1e-6 <= |R| <= 1e6, all directions, in the plane and in space']
    c.assumptions += ['double arithmetic is interpreted over the reals; tolerance 1e-9 relative to |R|^-k, the size of each quantity']
    c.outside += ['R = 0, where the kernels are not defined', 'floating-point rounding']
    PI = math.pi; LO, HI = 1e-6, 1e6
    def weight(r, n):
        return r.rho.ipow({'g': 0 if len(r.u) == 2 else 1, 'd': len(r.u) - 1, 'h': len(r.u)}[n[0]])
    for dim in (2, 3):
        def setup():
            r = Ring(); sub = {}
            if dim == 3:
                S = Sph(r, 'R', LO, HI); r.rho = S.rho; r.u = S.unit()
            else:
                r.rho = r.var('rho_R', LO, HI, laurent=True, nonneg=True)
                r.u = r.trig('R')
            for i in range(dim): sub['R%d' % i] = r.rho * r.u[i]
            return r, sub

        def spec(r, d):
            o = {}; rho, u = r.rho, r.u
            if dim == 2:
                g = logp(r, rho) * (-1 / (2 * PI)); r.lo[r.idx['log0']] = math.log(LO); r.hi[r.idx['log0']] = math.log(HI)
                grad = [x * rho.ipow(-1) * (-1 / (2 * PI)) for x in u]
                hes = [[(u[i] * u[j] * 2 - (1 if i == j else 0)) * rho.ipow(-2) * (1 / (2 * PI)) for j in range(2)] for i in range(2)]
                sg = 1
            else:
                g = rho.ipow(-1) * (1 / (4 * PI))
                grad = [x * rho.ipow(-2) * (-1 / (4 * PI)) for x in u]
                hes = [[(u[i] * u[j] * 3 - (1 if i == j else 0)) * rho.ipow(-3) * (1 / (4 * PI)) for j in range(3)] for i in range(3)]
                sg = -1     # the three-output form differentiates with respect to the field point in space
            o['g1'] = o['g2'] = o['g3'] = g
            for i in range(dim):
                o['d1_%d' % i] = o['d2_%d' % i] = grad[i]; o['d3_%d' % i] = grad[i] * sg
                for j in range(dim):
                    o['h1_%d%d' % (i, j)] = o['h3_%d%d' % (i, j)] = hes[i][j] * sg
            return o
        explore(c, h, [dim], setup, spec, 1e-9, label='%dD kernels' % dim, weight=weight)


if __name__ == '__main__':
    main('K01', body)
