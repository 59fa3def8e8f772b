import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def body(c):
    h = harness('bemc.cc', ('bemstub.cc', 'bemstub_grad.cc'))
    cases = [('DNN', 'direct', 'once'), ('NDN', 'fma', 'twice'), ('NDD', 'direct', 'twice'), ('DND', 'fma', 'once')]
    if c.thorough: cases = [(''.join(p), m, t) for p in ('DNN', 'NDN', 'NND', 'DDN', 'DND', 'NDD', 'DDD') for m in ('direct', 'fma') for t in ('once', 'twice')]
    c.bounds += ['12 unknowns on three faces of a cube (three double edges, one triple corner), Dirichlet patterns %s' % sorted({x[0] for x in cases}),
                 'every matrix entry, boundary datum, solver answer and previous content of all vectors in [-2,2]; first and second solve; direct and fast']
    c.outside += ['the iterative solver (it may return anything)', 'edges between two Dirichlet faces with the continuous-gradient option (B16)', 'more than one process', 'hanging nodes']
    for pat, meth, times in cases:
        args = ['solve', pat, meth, 'no', times]
        setup, st, p = inputs(c, h, args, fixed=('v', 's'))
        if p.meta['solves'] != ('2' if times == 'twice' else '1'): raise NoAnswer('the solver stand-in was not used')
        n = int(p.meta['n']); G = groups(p.meta)
        isD = lambda i: pat[int(p.meta['m%d' % i]) - 1] == 'D'

        def spec(r, d):
            s = st['sub']; o = {}
            if meth == 'direct': N = lambda i, j: s['N%d_%d' % (i, j)]; D = lambda i, j: s['D%d_%d' % (i, j)]
            else: N = lambda i, j: s['Nn%d_%d' % (i, j)] + s['Nf%d_%d' % (i, j)]; D = lambda i, j: s['Dn%d_%d' % (i, j)] + s['Df%d_%d' % (i, j)]
            S = [s['S%d' % i] for i in range(n)]; t = [s['t%d' % i] for i in range(n)]
            phi = [t[i] if isD(i) else S[i] for i in range(n)]; dphi = [S[i] if isD(i) else t[i] for i in range(n)]
            for i in range(n):
                o['phi%d' % i] = s['f%d' % i] if isD(i) else S[i]
                o['dphi%d' % i] = S[i] if isD(i) else s['g%d' % i]
                L = leader(G[i], isD)
                if i != L and not isD(i):       # continuity of the potential replaces this row
                    o['residual%d' % i] = S[i] - (t[L] if isD(L) else S[L])
                else:                            # the boundary equation at node i, with the free term that makes constants exact
                    e = r.const(0)
                    for j in range(n): e = e + N(i, j) * (phi[j] - phi[i]) - D(i, j) * dphi[j]
                    o['residual%d' % i] = e
            return o
        explore(c, h, args, setup, spec, 1e-8, label='solve %s %s %s' % (pat, meth, times))


if __name__ == '__main__':
    main('B17', body)
