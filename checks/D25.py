import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def il(s): return [int(x) for x in s.split(',') if x]


def body(c):
    h = Harness('bc.cc', ['bem_problem', 'boundary_conditions'], libs=build.TRI, models=['models/trilinos.cc'], stubs=('bemstub.cc', 'fnstub.cc', 'bcstub.cc'),
                plain=['computational_domain', 'singular_kernel_integral', 'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block']).build()
    cases = [('edge', 2, 1, 1, 'once'), ('edge', 1, 2, 1, 'twice'), ('edge', 0, 1, 1, 'twice'), ('strip', 2, 1, 1, 'once'), ('strip', 1, 2, 1, 'once')]
    if c.thorough: cases += [('edge', 2, 2, 1, 'twice'), ('strip', 2, 2, 1, 'twice'), ('strip', 1, 1, 2, 'once'), ('edge', 1, 1, 3, 'once'), ('edge', 3, 2, 1, 'once')]
    c.bounds += ['two faces meeting at an edge (double nodes) and a strip of two cells sharing an edge; (mesh, Dirichlet ids, Neumann ids, degree, solves) = %s' % cases,
                 'all material ids of the cells and of the lists in [0,6], all values of potential and wind at every node, all normals and all solver answers in [-2,2]']
    c.outside += ['cells in neither list that share nodes with cells of a list', 'more than one process', 'parsing of the functions']
    for case in cases:
        p = c.sym(h, None, case); m = p.meta; n = int(m['n']); nd, nn = case[1], case[2]; K = 2
        D = [il(m['d%d' % k]) for k in range(K)]
        if m['solves'] != ('2' if case[4] == 'twice' else '1') or m['normals'] != m['solves']: raise NoAnswer('stand-ins not used')
        last = int(m['solves']) - 1
        ints = {'mat%d' % k for k in range(K)} | {'did%d' % k for k in range(nd)} | {'nid%d' % k for k in range(nn)}
        st = {}
        def setup():
            r = Ring(); sub = {}
            for k in sorted(ints): sub[k] = r.var(k, 0, 6)
            for i in range(n):
                a = m['at%d' % i]
                for x in ['pot_%s_0' % a] + ['wind_%s_%d' % (a, q_) for q_ in range(3)]:
                    if x not in sub: sub[x] = r.var(x, -2, 2)
                for s in range(last + 1):
                    for x in ['P%d_%d' % (s, i), 'Q%d_%d' % (s, i)] + ['m%d_%d' % (s, g_) for g_ in il(m['g%d' % i])]:
                        if x not in sub: sub[x] = r.var(x, -2, 2)
            st['sub'] = sub
            return r, sub
        def atoms(zv):
            o = []
            for k in range(K):
                isD = z3.Or([zv['mat%d' % k] == zv['did%d' % j] for j in range(nd)]) if nd else z3.BoolVal(False)
                isN = z3.Or([zv['mat%d' % k] == zv['nid%d' % j] for j in range(nn)]) if nn else z3.BoolVal(False)
                o += [('Dirichlet%d' % k, isD), ('Neumann%d' % k, z3.And(z3.Not(isD), isN))]
            return o
        def spec(r, d):
            s = st['sub']; cs = c.cases; o = {}
            isD = [cs['Dirichlet%d' % k] for k in range(K)]; isN = [cs['Neumann%d' % k] for k in range(K)]; any_ = any(isD)
            o['have'] = r.const(1 if any_ else 0); f = int(m['first'])
            for i in range(n):
                mine = [k for k in range(K) if i in D[k]]; dn = any(isD[k] for k in mine); ne = [isN[k] for k in mine]
                a = m['at%d' % i]
                if dn or len(set(ne)) == 1:
                    if dn: v = s['pot_%s_0' % a]; o['phi%d' % i] = v
                    else:
                        v = r.const(0)
                        if ne[0]:
                            for q_, g_ in enumerate(il(m['g%d' % i])): v = v + s['wind_%s_%d' % (a, q_)] * s['m%d_%d' % (last, g_)]
                        o['dphi%d' % i] = v
                    o['rhs%d' % i] = v
                o['D%d' % i] = r.const(1 if dn else 0); o['N%d' % i] = r.const(0 if dn else 1)
                o['Q%d' % i] = s['Q%d_%d' % (last, i)]; o['P%d' % i] = s['P%d_%d' % (last, i)]
                if not any_: o['P%d' % i] = o['P%d' % i] + s['pot_%s_0' % m['at%d' % f]] - s['P%d_%d' % (last, f)]
            return o
        explore(c, h, case, setup, spec, 1e-9, label='boundary data %s' % ' '.join(map(str, case)), intvars=ints, atoms=atoms, maxpaths=600)
        if c.violations: return


if __name__ == '__main__':
    main('D25', body)
