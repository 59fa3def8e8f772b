"""Reference solid harmonics (Schmidt semi-normalised, Condon-Shortley phase) and
their translation theorems, from the classical recurrences -- independent of
the tables in the code under test."""
import math
from fractions import Fraction
from ring import *


def sqrtfp(x):
    """square root of a non-negative Fraction in fixed point"""
    return math.isqrt(((x.numerator << (2 * F)) // x.denominator))


def P(r, n, m, c, s):
    """unnormalised associated Legendre function in c=cos, s=sin (m>=0)"""
    cache = r.__dict__.setdefault('_P', {})
    key = (n, m, id(c))
    if key in cache:
        return cache[key]
    if n < m:
        v = r.const(0)
    elif n == m:
        v = r.const(1)
        for k in range(m):
            v = v * s * (-(2 * k + 1))
    else:
        v = (c * P(r, n - 1, m, c, s) * (2 * n - 1) - P(r, n - 2, m, c, s) * (n + m - 1)) * Fraction(1, n - m)
    cache[key] = v
    return v


def norm2(n, m):
    return Fraction(math.factorial(n - m), math.factorial(n + m))


class Sph:
    """a vector rho*(s cb, s sb, c)"""
    def __init__(self, r, tag, rlo, rhi, slo=0):
        self.r = r; self.rho = r.var('rho' + tag, rlo, rhi, laurent=True)
        self.c, self.s = r.trig('th' + tag, nonneg_sin=True, slo=slo, laurent_sin=True)
        self.cb, self.sb = r.trig('be' + tag)
        self.tag = tag; self.cache = {}

    @classmethod
    def axis(cls, r, tag, rlo, rhi, sign):
        """the vector (0, 0, sign*rho)"""
        self = cls.__new__(cls); self.r = r; self.tag = tag; self.cache = {}
        self.rho = r.var('rho' + tag, rlo, rhi, laurent=True)
        self.c, self.s, self.cb, self.sb = r.const(sign), r.const(0), r.const(1), r.const(0)
        for m in range(0, 64):
            v = (self.r.const(0),) * 2 if m else (self.r.const(1), self.r.const(0))
            self.trigm = getattr(self, 'trigm', []) + [v]
        return self

    def xyz(self):
        return (self.rho * self.s * self.cb, self.rho * self.s * self.sb, self.rho * self.c)

    def unit(self):
        return (self.s * self.cb, self.s * self.sb, self.c)

    def Y(self, n, m):
        """(re, im) of Phat_n^|m| e^{i m beta}"""
        k = (n, m)
        if k not in self.cache:
            if m < 0:
                a, b = self.Y(n, -m); self.cache[k] = (a, -b)
            else:
                p = P(self.r, n, m, self.c, self.s)
                p = Poly(self.r, {kk: (v * sqrtfp(norm2(n, m))) >> F for kk, v in p.d.items()})
                C, S = self.trigm[m] if hasattr(self, 'trigm') else mult_angle(self.r, 'be' + self.tag, m)
                self.cache[k] = (p * C, p * S)
        return self.cache[k]

    def R(self, n, m):
        a, b = self.Y(n, m); f = self.rho.ipow(n)
        return (a * f, b * f)

    def I(self, n, m):
        a, b = self.Y(n, m); f = self.rho.ipow(-n - 1)
        return (a * f, b * f)


def eps(m):
    return -1 if (m < 0 and m % 2) else 1


def nrm(n, m):
    """sqrt((n-m)!(n+m)!) as fixed point"""
    return sqrtfp(Fraction(math.factorial(n - m) * math.factorial(n + m)))


def scl(p, fpn, inv=False):
    return Poly(p.r, {k: ((v << F) // fpn if inv else (v * fpn) >> F) for k, v in p.d.items()})


def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def conj(a): return (a[0], -a[1])
def cs(a, k): return (a[0] * k, a[1] * k)


def legendre_series(r, p, cosg, up, down):
    """sum_n up^n down^-(n+1) P_n(cosg), cosg/up/down polynomials"""
    Pn = [r.const(1), cosg]
    for n in range(1, p):
        Pn.append((cosg * Pn[n] * (2 * n + 1) - Pn[n - 1] * n) * Fraction(1, n + 1))
    t = r.const(0)
    for n in range(p + 1):
        t = t + Pn[n] * up.ipow(n) * down.ipow(-n - 1)
    return t
