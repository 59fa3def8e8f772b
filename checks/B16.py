import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def body(c):
    h = harness('bemc.cc', ('bemstub.cc', 'bemstub_grad.cc'))
    pats = [''.join(p) for p in ('NNN', 'DNN', 'NDN', 'NND', 'DDN', 'DND', 'NDD', 'DDD')]
    c.bounds += ['12 unknowns on three faces of a cube (three double edges, one triple corner), all 8 Dirichlet patterns, with and without the continuous-gradient option, first and repeated computation',
                 'all boundary data in [-2,2]; sharp edges: all unit normals at every node, angle between them with sine >= 0.05, all gradients in [-2,2]; flat edges: normals equal up to 2e-5 per component']
    c.outside += ['normals at a distance between 2e-5 and 0.05', 'more than three faces at a corner', 'hanging nodes at double nodes', 'more than one process', 'the computation of the surface gradients themselves']
    cases = []
    for p in pats:
        two = p.count('D') >= 2
        for cont in ('continuous', 'no'):
            for kind in (('sharp', 'flat', 'both') if two and cont == 'continuous' else ('sharp', 'flat') if two else ('any',)):
                if kind == 'both' and p != 'DDD': continue
                if cont == 'no' and p in ('NNN', 'DNN', 'NND') and not c.thorough: continue
                cases.append((p, cont, kind, 'twice' if p in ('NDN', 'DND') or c.thorough else 'once'))
    for pat, cont, kind, times in cases:
        args = ['constraints', pat, 'direct', cont, times]
        p = c.sym(h, None, args)
        n = int(p.meta['n']); G = groups(p.meta); names = list(p.vars)
        if p.meta['gradients'] != ('2' if times == 'twice' else '1'): raise NoAnswer('the surface gradient stand-in was not used')
        isD = lambda i: pat[int(p.meta['m%d' % i]) - 1] == 'D'
        st = {}

        def sharp(i, k, G_):     # is the pair (leader, k) sharp?
            return kind == 'sharp' or (kind == 'both' and k == G_[-1])

        def setup():
            r = Ring(); sub = {}; st['dn'] = {}
            for i in range(n): sub['t%d' % i] = r.var('t%d' % i, -2, 2)
            done = set()
            for i in range(n):
                if i in done: continue
                D = [k for k in G[i] if isD(k)]; done.update(G[i])
                if len(D) < 2: continue
                g = [r.var('g%d_%d' % (i, k), -2, 2) for k in range(3)]
                ct, s_ = r.trig('th%d' % i); cb, sb = r.trig('be%d' % i)
                nn = {D[0]: [s_ * cb, s_ * sb, ct]}
                eth = [ct * cb, ct * sb, -s_]; ebe = [-sb, cb, r.const(0)]
                for k in D[1:]:
                    if sharp(D[0], k, G[i]):
                        cg, sg = r.trig('ga%d' % k, nonneg_sin=True, slo=Fraction(1, 20), laurent_sin=True); cd, sd = r.trig('de%d' % k)
                        nn[k] = [cg * a + sg * (cd * b + sd * e) for a, b, e in zip(nn[D[0]], eth, ebe)]
                    else:
                        e = [r.var('e%d_%d' % (k, q_), Fraction(-2, 10 ** 5), Fraction(2, 10 ** 5)) for q_ in range(3)]
                        nn[k] = [a + b for a, b in zip(nn[D[0]], e)]
                for k in D:
                    dn = g[0] * nn[k][0] + g[1] * nn[k][1] + g[2] * nn[k][2]; st['dn'][k] = dn
                    for q_ in range(3):
                        sub['v%d_%d' % (k, q_)] = nn[k][q_]
                        sub['s%d_%d' % (k, q_)] = g[q_] - dn * nn[k][q_]
            for x in names:
                if x not in sub: sub[x] = r.const(0)
            st['sub'] = sub
            return r, sub

        def spec(r, d):
            s = st['sub']; o = {}
            for i in range(n):
                L = leader(G[i], isD); D = [k for k in G[i] if isD(k)]
                on, val, ent = 0, r.const(0), {}
                if not isD(i) and i != L:
                    on = 1
                    if isD(L): val = s['t%d' % L]
                    else: ent[L] = 1
                elif isD(i) and len(D) > 1:
                    anysharp = cont == 'continuous' and any(sharp(L, k, G[i]) for k in D if k != L)
                    if i == L: on = 1 if anysharp else 0; val = st['dn'][i] if anysharp else val
                    elif sharp(L, i, G[i]):
                        if cont == 'continuous': on = 1; val = st['dn'][i]
                    else:
                        on = 1
                        if anysharp: val = st['dn'][L]      # equal to the leader, whose value is known
                        else: ent[L] = 1
                o['constrained%d' % i] = r.const(on); o['value%d' % i] = val
                for j in range(n): o['entry%d_%d' % (i, j)] = r.const(ent.get(j, 0))
            return o
        explore(c, h, args, setup, spec, 1e-7, label='%s %s %s %s' % (pat, cont, kind, times), equalities=False)


if __name__ == '__main__':
    main('B16', body)
