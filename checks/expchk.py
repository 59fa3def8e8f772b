"""Shared pieces of the expansion checks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from vc import *
from harm import *
CEN = (0.125, -0.25, 0.5)
SRCS = ['multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function']


def H():
    return Harness('expansions.cc', SRCS).build()


def place(r, sub, name, sph, cen=CEN):
    for k, ax in enumerate('xyz'):
        sub[name + ax] = sph.xyz()[k] + r.const(cen[k])


def coeffs(r, sub, tag, p):
    """symbolic coefficient vector; returns M(n,m) for all |m|<=n"""
    re, im = {}, {}
    for n in range(p + 1):
        for m in range(n + 1):
            nm = '%sr%d_%d' % (tag, n, m)
            re[n, m] = sub[nm] = r.var(nm, -1, 1)
            if m:
                nm = '%si%d_%d' % (tag, n, m)
                im[n, m] = sub[nm] = r.var(nm, -1, 1)
            else:
                im[n, m] = r.const(0)
    def M(n, m):
        return (re[n, abs(m)], im[n, abs(m)] if m >= 0 else -im[n, abs(m)])
    return M


def dot(a, b):
    t = a[0] * b[0]
    for i in (1, 2):
        t = t + a[i] * b[i]
    return t
