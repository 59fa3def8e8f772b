from expchk import *


def trans(c, h, mode, p, spec, tol=1e-7, near=True, wt=None):
    def mk(lo, hi, ax=0):
        def setup():
            r = Ring(); sub = {}
            r.D = Sph.axis(r, 'd', lo, hi, ax) if ax else Sph(r, 'd', lo, hi)
            place(r, sub, 'd', r.D)
            r.A = coeffs(r, sub, 'A', p); r.B = coeffs(r, sub, 'B', p)
            return r, sub
        return setup
    explore(c, h, [mode, p], mk(2e-7, 1), spec, tol, label=mode)
    for ax in (1, -1):
        explore(c, h, [mode, p], mk(2e-7, 1, ax), spec, tol, label=mode + ' along the axis %+d' % ax)
    explore(c, h, [mode, p], mk(1, 1e4), spec, tol, label=mode + ' (large shift)', weight=wt)
    if near:
        def same(r, d):
            return {'M%s%d_%d' % (k, n, m): r.A(n, m)[i] + r.B(n, m)[i] for n in range(p + 1) for m in range(n + 1) for i, k in enumerate('ri')}
        explore(c, h, [mode, p], mk(1e-8, 0.9e-7), same, 5e-6, label=mode + ' (coincident centres)')


def body(c):
    h = H()
    p = 12 if c.thorough else 8
    c.bounds += ['expansion order %d' % p, 'every coefficient of both expansions in [-1,1]', 'centre shift of length [2e-7,1e4] in every direction, along the polar axis, and below 1e-7']
    c.assumptions += ['double arithmetic is interpreted over the reals; tolerance 1e-7 absorbs the 10-digit tables']

    def spec(r, d):
        o = {}
        for n in range(p + 1):
            for m in range(n + 1):
                # conj R~_n^m(x+d) = sum conj R~_k^l(x) conj R~_{n-k}^{m-l}(d)
                z = r.B(n, m)
                for k in range(n + 1):
                    for l in range(-k, k + 1):
                        if abs(m - l) > n - k: continue
                        Mt = r.A(k, l); D = conj(r.D.R(n - k, m - l))
                        f = (nrm(n, m) << F) // ((nrm(k, l) * nrm(n - k, m - l)) >> F) * eps(l) * eps(m - l) * eps(m)
                        t = cmul(Mt, D)
                        z = cadd(z, (scl(t[0], f), scl(t[1], f)))
                o['Mr%d_%d' % (n, m)], o['Mi%d_%d' % (n, m)] = z
        return o
    trans(c, h, 'm2m', p, spec, wt=lambda r, n: r.D.rho.ipow(-int(n[2:].split('_')[0])))


if __name__ == '__main__':
    main('M04', body)
