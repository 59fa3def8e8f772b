from M04 import *


def body(c):
    h = H()
    for p, rel in ((6, 0), (8, 4e-9), (10, 4e-9)) if c.thorough else ((6, 0), (10, 4e-9)):
        if one(c, h, p, rel) is False: return


def one(c, h, p, rel):
    c.bounds += ['expansion order %d (the conversion table stops at 10)' % p, 'every coefficient of both expansions in [-1,1]', 'centres at distance [1e-3,1e4] in every direction and along the polar axis']
    c.assumptions += ['double arithmetic is interpreted over the reals', 'tolerance 1e-5 per output, or %g of the sum of absolute coefficients of its exact form;' % rel + ' the 10-digit tables and the factor distance^-(2p+1) are inside it']

    def setup(ax=0, rng=(1, 1e4)):
        r = Ring(); sub = {}
        r.D = Sph.axis(r, 'd', *rng, ax) if ax else Sph(r, 'd', *rng)
        place(r, sub, 'd', r.D)
        r.A = coeffs(r, sub, 'A', p); r.B = coeffs(r, sub, 'B', p)
        return r, sub

    def spec(r, d):
        o = {}
        for k in range(p + 1):
            for l in range(k + 1):
                z = r.B(k, l)
                # L~_k^l = sum (-1)^n R~_n^m(x) conj I~_{k+n}^{l+m}(d),  R_n^m(x) = conj M_n^m
                for n in range(p + 1):
                    for m in range(-n, n + 1):
                        I = conj(r.D.I(k + n, l + m)); Mc = r.A(n, -m)
                        f = (nrm(k + n, l + m) << F) // ((nrm(n, m) * nrm(k, l)) >> F) * eps(m) * eps(l + m) * eps(l) * (-1) ** n
                        t = cmul(Mc, I)
                        z = cadd(z, (scl(t[0], f), scl(t[1], f)))
                o['Mr%d_%d' % (k, l)], o['Mi%d_%d' % (k, l)] = z
        return o
    for ax in (1, -1):
        explore(c, h, ['m2l', p], lambda: setup(ax), spec, 1e-5, label='m2l%d along the axis %+d' % (p, ax), reltol=rel)
    explore(c, h, ['m2l', p], lambda: setup(0, (1e-3, 1)), spec, 1e-5, label='m2l%d near' % p, reltol=rel, weight=lambda r, n: r.D.rho.ipow(int(n[2:].split('_')[0]) + p + 1))
    return explore(c, h, ['m2l', p], setup, spec, 1e-5, label='m2l%d' % p, reltol=rel)


if __name__ == '__main__':
    main('X05', body)
