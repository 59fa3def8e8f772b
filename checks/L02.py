from expchk import *


def body(c):
    h = Harness('legendre.cc', ['ass_leg_function']).build()
    N = 20
    c.bounds += ['every degree and order up to %d' % N, 'argument over (-1,1); derivatives with 1-x^2 >= 0.01', 'tolerance 1e-9 times the sum of absolute coefficients of the exact function']
    def setup():
        r = Ring(); sub = {}
        r.ct, r.st = r.trig('th', nonneg_sin=True, slo=0.1, laurent_sin=True)
        sub['x'] = r.ct
        return r, sub
    r, sub = setup()
    pt = random_point(r, c.rng)
    inputs = {'x': sub['x'].eval(dict(pt))}
    d = c.sym(h, inputs, [N])
    c.paths = 1
    if d.pcs: raise NoAnswer('unexpected branch')
    need = [o[0] for o in d.outs.values()]
    vals = evaluate(d, r, sub, need)
    for nm in d.outs:
        n, m = map(int, nm[1:].split('_'))
        nr = sqrtfp(norm2(n, m))
        if nm[0] in 'PAB':
            sp = scl(P(r, n, m, r.ct, r.st), nr)
        else:  # (1-x^2) P' = (n+m) P_{n-1}^m - n x P_n^m
            sp = scl((P(r, n - 1, m, r.ct, r.st) * (n + m) if n > m else r.const(0)) - r.ct * P(r, n, m, r.ct, r.st) * n, nr) * r.st.ipow(-2)
        e = d.outs[nm][0]
        got = vals[e] if e else r.const(d.outval(nm))
        cv = d.outval(nm); pv = got.eval(dict(pt))
        mass = sum(abs(unfp(v)) for v in sp.d.values())
        if abs(pv - cv) > 1e-9 * max(1, mass): raise NoAnswer('encoding of ' + nm)
        c.validated += 1
        tol = 1e-9 * max(1.0, mass) * (100 if nm[0] in 'DC' else 1)
        diff = got - sp
        res = c.box(r, nm, diff, tol)
        if len(c.samples) < 5: c.samples.append({'query': nm, 'specification': sp.show(4), 'difference': diff.maxabs(), 'tolerance': tol, 'answer': res})
        if res != 'unsat':
            w = c.witness(r, diff, tol, want=1)
            pts = ([w] if w else []) + [random_point(r, c.rng) for _ in range(20)]
            if not _ref(c, h, [N], r, sub, {nm: sp}, tol, pts): raise NoAnswer('no witness for %s: %s' % (nm, diff.show()))
            return


def _ref(c, h, args, r, sub, ex, tol, pts):
    return refute(c, h, args, r, sub, ex, tol, 'legendre', None, 'differs from the associated Legendre function', pts)


if __name__ == '__main__':
    main('L02', body)
