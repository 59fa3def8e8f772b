from expchk import *


def body(c):
    h = H()
    p = 9 if c.thorough else 8
    c.bounds += ['expansion order %d (charges) and %d (dipoles)' % (p, p - 1), 'strength of size 1e-9 to 1, of either sign (tolerances are relative to it)',
                 'source at distance [1e-6,1] and evaluation point at distance [0.8,1e4] from the centre, all directions off the polar axis; dipole axes of length [0.5,2], all directions',
                 'separate on-axis and at-centre cases']
    c.assumptions += ['double arithmetic is interpreted over the reals; tolerance 2e-7 absorbs the 10-digit tables', 'std::exp(complex), pow, atan2, sin, cos behave as the mathematical functions']
    c.outside += ['orders above the stated ones', 'floating-point rounding']

    sg = [1]
    def wt(r, n): return r.q.ipow(-1)

    def common(dip, xs=None):
        def setup():
            r = Ring(); sub = {}
            r.x = Sph(r, 'x', 1e-6, 1, slo=Fraction(1, 10 ** 6)); r.y = Sph(r, 'y', 0.8, 1e4)
            place(r, sub, 'x', r.x); place(r, sub, 'y', r.y); r.q = r.var('q', Fraction(1, 10 ** 9), 1, laurent=True); sub['q'] = r.q * sg[0]
            if dip:
                r.n = Sph(r, 'n', 0.5, 2)
                for k, ax in enumerate('xyz'): sub['n' + ax] = r.n.xyz()[k]
            r.sub = sub
            return r, sub
        return setup

    def spec(r, d):
        cg = dot(r.x.unit(), r.y.unit())
        return {'v': r.sub['q'] * legendre_series(r, p, cg, r.x.rho, r.y.rho)}
    for sg[0] in (-1, 1):
        explore(c, h, ['p2m', p], common(False), spec, 2e-7, label='charge of sign %+d' % sg[0], weight=wt)

    def spec_dip(r, d):
        # derivative along the unit axis of rho^n P_n(cos g) = a polynomial in
        # u = x.y/|y| and w = |x|^2:  Q_n(u,w) = ((2n-1)u Q_{n-1} - (n-1) w Q_{n-2})/n
        P_ = p - 1
        x = r.x.xyz(); y = r.y.unit(); nu = r.n.unit()
        u = dot(x, y); w = r.x.rho * r.x.rho
        du = dot(nu, y); dw = dot(nu, x) * 2
        Q = [r.const(1), u]; dQ = [r.const(0), du]
        for n in range(2, P_ + 1):
            Q.append((u * Q[n - 1] * (2 * n - 1) - w * Q[n - 2] * (n - 1)) * Fraction(1, n))
            dQ.append(((du * Q[n - 1] + u * dQ[n - 1]) * (2 * n - 1) - (dw * Q[n - 2] + w * dQ[n - 2]) * (n - 1)) * Fraction(1, n))
        t = r.const(0)
        for n in range(P_ + 1):
            t = t + dQ[n] * r.y.rho.ipow(-n - 1)
        return {'v': r.sub['q'] * t}
    for sg[0] in (-1, 1):
        explore(c, h, ['dip', p - 1], common(True), spec_dip, 2e-6, label='dipole of sign %+d' % sg[0], weight=wt)

    for ax in (1, -1):   # evaluation points on the axis
        def on_axis(dip=False):
            r = Ring(); sub = {}
            r.x = Sph(r, 'x', 1e-6, 1, slo=Fraction(1, 10 ** 6)); r.y = Sph.axis(r, 'y', 0.8, 1e4, ax)
            place(r, sub, 'x', r.x); place(r, sub, 'y', r.y); r.q = r.var('q', Fraction(1, 10 ** 9), 1, laurent=True); sub['q'] = r.q * sg[0]
            r.sub = sub
            return r, sub
        explore(c, h, ['p2m', p], on_axis, spec, 2e-7, label='charge seen from the axis %+d' % ax, weight=wt)

    # sources on the polar axis of the block, and in its centre
    def special(dip, where, naxis=False):
        def setup():
            r = Ring(); sub = {}
            z = r.const(0)
            r.t = z if where == 0 else r.var('rhox', 1e-6, 1, laurent=True) * where
            r.xv = (z, z, r.t)
            for k, ax in enumerate('xyz'): sub['x' + ax] = r.const(CEN[k]) + r.xv[k]
            r.y = Sph(r, 'y', 0.8, 1e4); place(r, sub, 'y', r.y); r.q = r.var('q', Fraction(1, 10 ** 9), 1, laurent=True); sub['q'] = r.q * sg[0]
            if dip:
                if naxis:
                    l = r.var('rhon', 0.5, 2, laurent=True); r.nu = (z, z, r.const(naxis)); nv = (z, z, l * naxis)
                else:
                    S = Sph(r, 'n', 0.5, 2); r.nu = S.unit(); nv = S.xyz()
                for k, ax in enumerate('xyz'): sub['n' + ax] = nv[k]
            r.sub = sub
            return r, sub
        def spec(r, d):
            P_ = p - 1 if dip else p
            y = r.y.unit(); u = dot(r.xv, y); w = r.t * r.t
            Q = [r.const(1), u]
            if dip: du = dot(r.nu, y); dw = dot(r.nu, r.xv) * 2; dQ = [r.const(0), du]
            for n in range(2, P_ + 1):
                Q.append((u * Q[n - 1] * (2 * n - 1) - w * Q[n - 2] * (n - 1)) * Fraction(1, n))
                if dip: dQ.append(((du * Q[n - 1] + u * dQ[n - 1]) * (2 * n - 1) - (dw * Q[n - 2] + w * dQ[n - 2]) * (n - 1)) * Fraction(1, n))
            t = r.const(0)
            for n in range(P_ + 1): t = t + (dQ if dip else Q)[n] * r.y.rho.ipow(-n - 1)
            return {'v': r.sub['q'] * t}
        explore(c, h, ['dip' if dip else 'p2m', p - 1 if dip else p], setup, spec, 2e-6 if dip else 2e-7, label='%s %s%s' % ('dipole' if dip else 'charge', {0: 'in the centre', 1: 'on the axis', -1: 'on the axis (below)'}[where], ', axial' if naxis else ''), weight=wt)
    for w in (0, 1, -1):
        special(False, w); special(True, w)
    special(True, 0, 1); special(True, 0, -1); special(True, 1, 1); special(True, -1, -1)

    def setup_lin():
        r = Ring(); sub = {}
        r.A = coeffs(r, sub, 'A', p); r.B = coeffs(r, sub, 'B', p)
        sub['s'] = r.s = r.var('s', -2, 2); sub['t'] = r.t = r.var('t', -2, 2)
        return r, sub

    def spec_lin(r, d):
        o = {}
        for n in range(p + 1):
            for m in range(n + 1):
                a, b = r.A(n, m), r.B(n, m)
                o['Mr%d_%d' % (n, m)] = a[0] * r.s + b[0] * r.t
                o['Mi%d_%d' % (n, m)] = a[1] * r.s + b[1] * r.t
        return o
    explore(c, h, ['lin', p], setup_lin, spec_lin, 1e-9, label='superposition')


if __name__ == '__main__':
    main('M03', body)
