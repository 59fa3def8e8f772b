import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def fl(s): return [float(x) for x in s.split(',') if x]


def body(c):
    h = Harness('fma.cc', ['bem_fma', 'octree_block'], libs=build.TRI, models=['models/trilinos.cc'], stubs=('formal.cc', 'fevstub.cc'), extra=('-D_GLIBCXX_ASSERTIONS',),
                plain=['local_expansion_coeff', 'ass_leg_function']).build()
    cases = [('cube', 3, 3, 2, 2, 1, 'first'), ('graded', 4, 2, 2, 2, 1, 'first'), ('graded', 6, 1, 2, 3, 1, 'again'), ('strip', 4, 3, 1, 2, 2, 'again'), ('graded', 3, 4, 3, 1, 1, 'refined'), ('burst1', 6, 1, 1, 1, 1, 'first'), ('burst2', 7, 1, 1, 1, 1, 'refined')]
    if c.thorough: cases += [('cube', 2, 10, 3, 2, 1, 'again'), ('cube', 5, 1, 1, 1, 1, 'first'), ('cube', 1, 1, 2, 2, 1, 'first'), ('graded', 8, 1, 1, 2, 1, 'first'), ('graded', 10, 1, 2, 2, 2, 'again'), ('strip', 6, 1, 3, 3, 1, 'first'), ('strip', 3, 20, 2, 2, 3, 'first'), ('cube', 4, 1, 2, 3, 2, 'again'), ('tower', 7, 2, 2, 2, 1, 'first')]
    else: cases += [('tower', 7, 2, 2, 2, 1, 'first')]
    c.bounds += ['meshes of 8 to 24 quadrilaterals, one cube, one of graded patches, one strip, one with clusters three and more levels deep; element degrees 1 to 3; (mesh, octree levels, nodes per block, regular order, singular order, degree, fresh or used object) = %s' % cases,
                 'every density in [-2,2], every quadrature weight in [0.1,2], independently; the earlier content of the result vectors in [-2,2]']
    c.outside += ['the positions of nodes and quadrature points and the shape functions (those of the meshes above)', 'more than one process', 'the series themselves: every expansion is replaced by the exact sum over its sources, and every use where the series would not converge counts as a failure (their truncated forms are decided by M03, M04, X05 and X06)']
    c.assumptions.append('the Trilinos wrapper skips entries that are exactly zero; adding zero or skipping it is the same')
    stats = []
    for case in cases:
        p = c.sym(h, None, case); m = p.meta; n = int(m['n']); dpc = int(m['dpc']); cells = int(m['cells'])
        stats.append({k: m[k] for k in ('n', 'cells', 'blocks', 'childless', 'far')})
        pos = [fl(m['p%d' % i]) for i in range(n)]; dofs = [[int(x) for x in m['d%d' % k].split(',') if x] for k in range(cells)]
        names = list(p.vars); reg = int(m['regular'])
        dist = lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
        pts = {}
        for x in m:
            if x[0] == 'x':
                k, r_, q_ = map(int, x[1:].split('_')); pts.setdefault((k, r_), {})[q_] = (fl(m[x]), fl(m['s' + x[1:]]), fl(m['m' + x[1:]]))
        if p.outval('diverging') != 0:
            c.violation('%s:diverging' % ' '.join(map(str, case)), h, None, case, '%d uses of expansions where the series does not converge to the field it stands for' % p.outval('diverging')); return
        rule = {}; bad = None
        for k in range(cells):
            for i in range(n):
                hit = [l for l in range(dpc) if dist(pos[i], pos[dofs[k][l]]) < 1e-9]
                ok = [r_ for r_ in ([int(x) for x in m['singular%d' % hit[0]].split(',')] if hit else [reg]) if (k, r_) in pts]
                if not ok: bad = 'cell %d was not integrated with a rule for node %d' % (k, i); break
                rule[k, i] = ok[0]
            if bad: break
        if bad: c.violation('%s:rule' % ' '.join(map(str, case)), h, None, case, bad); return
        st = {}
        def setup():
            r = Ring(); sub = {}
            for v in names: sub[v] = r.var(v, Fraction(1, 10), 2) if v[0] == 'W' else r.var(v, -2, 2)
            st['sub'] = sub
            return r, sub
        def spec(r, d):
            s = st['sub']; o = {'diverging': r.const(0)}
            for i in range(n):
                N = r.const(0); D = r.const(0); pn = {}; pd = {}
                for k in range(cells):
                    for q_, (x, sh, nv) in pts[k, rule[k, i]].items():
                        R = [a - b for a, b in zip(x, pos[i])]; dd = math.sqrt(sum(a * a for a in R)); w = (k, rule[k, i], q_)
                        g = 1 / (4 * math.pi * dd); G = -sum(a * b for a, b in zip(R, nv)) / (4 * math.pi * dd ** 3)
                        for l in range(dpc):
                            if abs(sh[l]) < 1e-15: continue
                            t = (w, dofs[k][l]); pn[t] = pn.get(t, 0) + G * sh[l]; pd[t] = pd.get(t, 0) + g * sh[l]
                o['N%d' % i] = bilinear(r, s, pn, 'f'); o['D%d' % i] = bilinear(r, s, pd, 'g')
            return o
        explore(c, h, case, setup, spec, 1e-9, reltol=1e-11, label='fast product %s' % ' '.join(map(str, case)), neutral='trilinos_sparse_matrix')
        if c.violations: return
    c.samples.append({'octrees': stats})


def bilinear(r, s, terms, f):
    o = r.const(0); d = {}
    for ((k, ru, q_), j), v in terms.items():
        a = s['W%d_%d_%d' % (k, ru, q_)]; b = s['%s%d' % (f, j)]
        (ka, ca), = a.d.items(); (kb, cb), = b.d.items()
        d[ka + kb] = d.get(ka + kb, 0) + fp(v)
    o.d = {k: v for k, v in d.items() if v}
    return o


if __name__ == '__main__':
    main('F11', body)
