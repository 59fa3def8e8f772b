import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def fl(s): return [float(x) for x in s.split(',') if x]


def body(c):
    h = harness('asm.cc', ('bemstub.cc', 'fevstub.cc'))
    cases = [('3', 1, 2, 2, 'first'), ('2', 1, 3, 3, 'first'), ('3', 2, 2, 1, 'second'), ('2', 2, 2, 2, 'second')]
    if c.thorough: cases += [('3', 1, 4, 5, 'first'), ('3', 2, 3, 2, 'first'), ('2', 1, 8, 5, 'second'), ('2', 3, 3, 3, 'first')]
    c.bounds += ['meshes of 5 quadrilaterals (space) and 6 segments (plane) with shared and double nodes; element degrees 1 and 2; (dimension, degree, regular order, singular order, fresh process or after another problem) = %s' % cases,
                 'every quadrature weight in [0.1,2] and every normal component in [-2,2], independently; assembled twice']
    c.outside += ['the positions of nodes and quadrature points and the shape functions (deal.II; those of the meshes above)', 'more than one process']
    c.assumptions.append('the Trilinos wrapper skips entries that are exactly zero; adding zero or skipping it is the same')
    for case in cases:
        p = c.sym(h, None, case); m = p.meta; n = int(m['n']); dpc = int(m['dpc']); cells = int(m['cells']); dim = int(case[0])
        pos = [fl(m['p%d' % i]) for i in range(n)]; dofs = [[int(x) for x in m['d%d' % k].split(',') if x] for k in range(cells)]
        names = list(p.vars); val = {v[0]: float(np.array([v[2]], dtype='<u8').view('<f8')[0]) for v in p.j['vars']}
        dist = lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
        rule = {}
        for k in range(cells):
            for i in range(n):
                hit = [l for l in range(dpc) if dist(pos[i], pos[dofs[k][l]]) < 1e-9]
                rule[k, i] = int(m['singular%d' % hit[0]]) if hit else int(m['regular'])
        pts = {}
        for x in m:
            if x[0] == 'x':
                k, r_, q_ = map(int, x[1:].split('_')); pts.setdefault((k, r_), {})[q_] = (fl(m[x]), fl(m['s' + x[1:]]))
        def kern(R):
            d2 = sum(x * x for x in R); d = math.sqrt(d2)
            if dim == 3: return 1 / (4 * math.pi * d), [-x / (4 * math.pi * d ** 3) for x in R]
            return -math.log(d) / (2 * math.pi), [-x / (2 * math.pi * d2) for x in R]
        for part in range(cells):      # the variables of one cell at a time; the other cells keep their numbers
            st = {}
            def setup():
                r = Ring(); sub = {}
                for v in names:
                    if v[0] in 'Wm' and int(v[1:].split('_')[0]) == part:
                        sub[v] = r.var(v, Fraction(1, 10) if v[0] == 'W' else -2, 2)
                    else: sub[v] = r.const(val[v])
                st['sub'] = sub
                return r, sub
            def spec(r, d):
                s = st['sub']; o = {}
                for i in range(n):
                    for j in range(n): o['N%d_%d' % (i, j)] = r.const(0); o['D%d_%d' % (i, j)] = r.const(0)
                for k in range(cells):
                    for i in range(n):
                        ru = rule[k, i]
                        if (k, ru) not in pts: raise NoAnswer('cell %d was not integrated with the expected rule' % k) if (k, ru) in pts else Wrong('cell %d was not integrated with the rule for node %d' % (k, i))
                        for q_, (x, sh) in pts[k, ru].items():
                            g, G = kern([a - b for a, b in zip(x, pos[i])]); t = '%d_%d_%d' % (k, ru, q_)
                            W = s['W' + t]; Dn = r.const(0)
                            for a in range(dim): Dn = Dn + s['m' + t + '_%d' % a] * G[a]
                            Dn = Dn * W
                            for l in range(dpc):
                                if abs(sh[l]) < 1e-15: continue
                                j = dofs[k][l]
                                o['N%d_%d' % (i, j)] = o['N%d_%d' % (i, j)] + Dn * sh[l]
                                o['D%d_%d' % (i, j)] = o['D%d_%d' % (i, j)] + W * (g * sh[l])
                return o
            try:
                explore(c, h, case, setup, spec, 1e-9, reltol=1e-11, label='assembly %s cell %d' % (' '.join(map(str, case)), part), neutral='trilinos_sparse_matrix')
            except Wrong as e:
                c.violation('rule:value', h, {}, case, str(e)); return
            if c.violations: return


class Wrong(Exception):
    pass


if __name__ == '__main__':
    main('B12', body)
