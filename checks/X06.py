from M04 import *


def body(c):
    h = H()
    p = 10
    c.bounds += ['expansion order %d' % p, 'every coefficient of both expansions in [-1,1]', 'centre shift of length [2e-7,1e4] in every direction, along the polar axis, and below 1e-7', 'evaluation point at distance [1e-6,1] (local) from the centre']
    c.assumptions += ['double arithmetic is interpreted over the reals; tolerance 1e-7 absorbs the 10-digit tables']

    def spec(r, d):
        o = {}
        for k in range(p + 1):
            for l in range(k + 1):
                z = r.B(k, l)
                # potential = sum L_n^m R_n^m(y-d);  R~_n^m(y-d) = sum R~_k^l(y) R~_{n-k}^{m-l}(-d)
                for n in range(k, p + 1):
                    for m in range(-n, n + 1):
                        if abs(m - l) > n - k: continue
                        D = r.D.R(n - k, m - l)
                        f = (nrm(n, m) << F) // ((nrm(k, l) * nrm(n - k, m - l)) >> F) * eps(m) * eps(m - l) * eps(l) * (-1) ** (n - k)
                        t = cmul(r.A(n, m), D)
                        z = cadd(z, (scl(t[0], f), scl(t[1], f)))
                o['Mr%d_%d' % (k, l)], o['Mi%d_%d' % (k, l)] = z
        return o
    trans(c, h, 'l2l', p, spec, 2e-7, wt=lambda r, n: r.D.rho.ipow(int(n[2:].split('_')[0]) - p))

    def setup():
        r = Ring(); sub = {}
        r.y = Sph(r, 'y', 1e-6, 1); place(r, sub, 'y', r.y); r.A = coeffs(r, sub, 'A', p)
        return r, sub

    def ev(r, d):
        t = r.const(0)
        for n in range(p + 1):
            for m in range(-n, n + 1):
                t = t + cmul(r.A(n, m), r.y.R(n, m))[0]
        return {'v': t}
    explore(c, h, ['leval', p], setup, ev, 2e-7, label='local evaluation')

    # on the polar axis only the m=0 terms contribute; in the centre only n=0
    def special(where):
        def setup():
            r = Ring(); sub = {}; z = r.const(0)
            r.t = z if where == 0 else r.var('rhoy', 1e-6, 1, laurent=True) * where
            for k, (ax, v) in enumerate(zip('xyz', (z, z, r.t))): sub['y' + ax] = r.const(CEN[k]) + v
            r.A = coeffs(r, sub, 'A', p)
            return r, sub

        def spec(r, d):
            t = r.A(0, 0)[0]
            for n in range(1, p + 1): t = t + r.A(n, 0)[0] * r.t.ipow(n)
            return {'v': t}
        explore(c, h, ['leval', p], setup, spec, 2e-7, label='local evaluation %s' % {0: 'in the centre', 1: 'on the axis', -1: 'on the axis (below)'}[where])
    for w in (0, 1, -1): special(w)


if __name__ == '__main__':
    main('X06', body)
