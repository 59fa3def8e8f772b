import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def il(s): return [int(x) for x in s.split(',') if x]


def body(c):
    h = Harness('err.cc', ['bem_problem', 'boundary_conditions'], libs=build.TRI, models=['models/trilinos.cc'], stubs=('bemstub.cc', 'fnstub.cc', 'bcstub.cc', 'errstub.cc'),
                plain=['computational_domain', 'singular_kernel_integral', 'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block']).build()
    cases = [('edge', 1, 'errors', 'once'), ('strip', 1, 'errors', 'twice'), ('edge', 1, 'output', 'twice')]
    if c.thorough: cases += [(g, d, w, t) for g in ('edge', 'strip') for d in (1, 2, 3) for w in ('errors', 'output') for t in ('once', 'twice') if (g, d, w, t) not in cases]
    c.bounds += ['two faces meeting at an edge and a strip of two cells; (mesh, degree, errors or result files, once or twice) = %s' % cases,
                 'all potentials, normal derivatives, gradients, normals, solid angles and all values of the prescribed functions at the nodes in [-2,2]; all local integrals in [-2,2]']
    c.outside += ['the surface integration and the file format of deal.II (arbitrary integrals are returned; the names in the files written are looked for)', 'more than one process, plane problems']
    for case in cases:
        setup, st, p = inputs(c, h, case); m = p.meta; n = int(m['n']); err = case[2] == 'errors'
        if err and m['gradients'] == '0': raise NoAnswer('stand-ins not used')
        two = case[3] == 'twice'

        def spec(r, d):
            s = st['sub']; o = {}
            def total(q):
                t = r.const(0)
                for x in q: t = t + x * x
                return t.sqrt()
            comp = {}
            for i in range(n):
                for q_, g in enumerate(il(m['g%d' % i])): comp[g] = (i, q_)
            ng = len(comp); P = [s['PR'[two] + '%d' % i] for i in range(n)]; Q = [s['QT'[two] + '%d' % i] for i in range(n)]; G = [s['G%d' % g] + (P[g % n] + Q[g % n] * .5 if err else r.const(0)) for g in range(ng)]
            if not err:
                for i in range(n): o['data:phi:%d' % i] = P[i]; o['data:dphi_dn:%d' % i] = Q[i]; o['data:alpha:%d' % i] = s['A%d' % i]
                for g in range(ng): o['data:phi_gradient:%d' % g] = G[g]; o['data:phi_surf_gradient:%d' % g] = s['S%d' % g]; o['data:normals_at_nodes:%d' % g] = s[('n%d' if two else 'm0_%d') % g]
            else:
                pe = [P[i] - s['pot_%s_0' % m['at%d' % i]] for i in range(n)]; qe = list(Q)
                ge = [G[g] - s['wind_%s_%d' % (m['at%d' % comp[g][0]], comp[g][1])] for g in range(ng)]
                for g in range(ng): i, q_ = comp[g]; qe[i] = qe[i] - s['wind_%s_%d' % (m['at%d' % i], q_)] * s[('n%d' if two else 'm0_%d') % g]
                for i in range(n):
                    o['gphi%d' % i] = P[i]; o['gdphi%d' % i] = Q[i]; o['data:phi_error:%d' % i] = pe[i]; o['data:dphi_dn_error:%d' % i] = qe[i]
                    o['int:s-pot-L2:%d' % i] = P[i]; o['int:s-zero-L2:%d' % i] = qe[i]
                for g in range(ng): o['data:phi_gradient_error:%d' % g] = ge[g]; o['int:v-wind-L2:%d' % g] = G[g]
                cell = lambda x: total([s['I%s_%d' % (x, i)] for i in range(int(m['cells']))])
                say = {'Phi_Nodes_error_L_inf_norm:': linf(r, pe), 'Phi_Cells_error_L_2_norm:': cell('s-pot-L2'), 'dPhidN_Nodes_error_L_inf_norm:': linf(r, qe), 'dPhidN_Nodes_error_L_2_norm:': cell('s-zero-L2'),
                       'Phi_Nodes_Gradient_error_L_inf_norm:': linf(r, ge), 'Phi_Cells_Gradient__error_L_2_norm:': cell('v-wind-L2')}
                for k, v in say.items():
                    for x in d.outs:
                        if x.startswith('say:') and x.endswith(k) and ('dPhi' in x) == ('dPhi' in k): o[x] = v; break
                    else: o['say:' + k] = v
                for k, v in (('Number_of_active_cells:', int(m['cells'])), ('Number_of_degrees_of_freedom:', n)):
                    for x in d.outs:
                        if x.startswith('count:') and x.endswith(k): o[x] = r.const(v)
            for x in d.outs:
                if x.split(':')[0] in ('written', 'kind'): o[x] = r.const(1)
            return o
        explore(c, h, case, setup, spec, 1e-9, label='reported errors %s' % ' '.join(map(str, case)) if err else 'result files %s' % ' '.join(map(str, case)))
        if c.violations: return


if __name__ == '__main__':
    main('R26', body)
