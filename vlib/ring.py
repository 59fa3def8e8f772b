"""Exact normal forms for the real-arithmetic terms of a symbolic run.

A value is a Laurent polynomial over named real indeterminates modulo relations
  c^2 = 1 - s^2           (cosine/sine pairs of an angle)
  q^2 = e                 (q stands for the non-negative square root of e)
so equal values have equal normal forms.  Coefficients are integers scaled by
2^-F.  Angles (results of atan2) are kept as linear forms in named angles and are
expanded by the multiple-angle formulas when they reach sin/cos."""
import math
from fractions import Fraction
F = 220
ONE = 1 << F
SH = 12
HALF = 1 << (SH - 1)
MASK = (1 << SH) - 1


class Unsupported(Exception):
    pass


def fp(x):
    """fixed point of a float, an int or a Fraction"""
    if isinstance(x, int):
        return x << F
    if isinstance(x, float):
        m, e = math.frexp(x)
        m = int(m * (1 << 53)); e -= 53
        s = F + e
        return m << s if s >= 0 else m >> -s
    return (x.numerator << F) // x.denominator


def unfp(c):
    return float(Fraction(c, ONE)) if abs(c).bit_length() < 1000 else float(c >> F)


def frac(c):
    return Fraction(c, ONE)


class Ring:
    def __init__(self):
        self.names = []; self.idx = {}
        self.laurent = []; self.nonneg = []; self.lo = []; self.hi = []
        self.red = {}        # var index -> Poly equal to its square
        self.redlist = []
        self.bias = 0
        self.angles = {}     # name -> (cos poly, sin poly)
        self.defs = {}       # auxiliary variables: name -> ('sqrt'|'inv'|..., poly)
        self.sqrtcache = {}; self.invcache = {}
        self.eps = 1 << (F - 100)   # coefficients below 2^-100 are rounding residue

    def var(self, name, lo=None, hi=None, laurent=False, nonneg=None):
        i = len(self.names)
        self.names.append(name); self.idx[name] = i
        self.laurent.append(laurent); self.lo.append(lo); self.hi.append(hi)
        self.nonneg.append(nonneg if nonneg is not None else (lo is not None and lo >= 0))
        self.bias += HALF << (SH * i)
        return Poly(self, {1 << (SH * i): ONE})

    def trig(self, base, nonneg_sin=False, slo=None, laurent_sin=False):
        """the pair (cos, sin) of a free angle; sin may be inverted if laurent_sin"""
        c = self.var('c_' + base, -1, 1)
        s = self.var('s_' + base, (slo if slo is not None else 0) if nonneg_sin else -1, 1, laurent=laurent_sin, nonneg=nonneg_sin)
        self.relation('c_' + base, self.const(1) - s * s)
        self.angles[base] = (c, s)
        return c, s

    def relation(self, name, sq):
        i = self.idx[name]
        self.red[i] = sq
        self.redlist.append(i)

    def const(self, x):
        c = fp(x)
        return Poly(self, {0: c} if c else {})

    def exp_of(self, key, i):
        return (((key + self.bias) >> (SH * i)) & MASK) - HALF

    def exps(self, key):
        k = key + self.bias
        return [((k >> (SH * i)) & MASK) - HALF for i in range(len(self.names))]

    def reduce(self, d):
        for i in self.redlist:
            while True:
                hit = [k for k in d if self.exp_of(k, i) >= 2]
                if not hit:
                    break
                sq = self.red[i].d
                for k in hit:
                    c = d.pop(k)
                    if not c:
                        continue
                    k2 = k - (2 << (SH * i))
                    for kk, cc in sq.items():
                        n = k2 + kk
                        d[n] = d.get(n, 0) + ((c * cc) >> F)
        return d


class Poly:
    __slots__ = ('r', 'd')

    def __init__(self, r, d):
        self.r = r; self.d = d

    def clean(self):
        e = self.r.eps
        self.d = {k: c for k, c in self.d.items() if c > e or c < -e}
        return self

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = self.r.const(o)
        if len(o.d) > len(self.d):
            self, o = o, self
        d = dict(self.d)
        for k, c in o.d.items():
            n = d.get(k, 0) + c
            if n:
                d[k] = n
            else:
                del d[k]
        return Poly(self.r, d)
    __radd__ = __add__

    def __neg__(self):
        return Poly(self.r, {k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = self.r.const(o)
        d = dict(self.d)
        for k, c in o.d.items():
            n = d.get(k, 0) - c
            if n:
                d[k] = n
            else:
                del d[k]
        return Poly(self.r, d)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        r = self.r
        if not isinstance(o, Poly):
            c = fp(o)
            return Poly(r, {k: (v * c) >> F for k, v in self.d.items()}) if c else Poly(r, {})
        a, b = self.d, o.d
        if not a or not b:
            return Poly(r, {})
        if len(a) < len(b):
            a, b = b, a
        if len(b) == 1:
            (k2, c2), = b.items()
            d = {k + k2: (c * c2) >> F for k, c in a.items()}
        else:
            d = {}
            get = d.get
            ai = list(a.items())
            for k2, c2 in b.items():
                for k1, c1 in ai:
                    k = k1 + k2
                    d[k] = get(k, 0) + c1 * c2
            d = {k: c >> F for k, c in d.items()}
        if r.redlist:
            r.reduce(d)
        e = r.eps
        return Poly(r, {k: c for k, c in d.items() if c > e or c < -e})
    __rmul__ = __mul__

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        out = None; b = self
        while n:
            if n & 1:
                out = b if out is None else out * b
            n >>= 1
            if n:
                b = b * b
        return out if out is not None else self.r.const(1)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def cval(self):
        return self.d.get(0, 0)

    def is_zero(self, tol=2.0 ** -60):
        t = fp(tol)
        return all(abs(c) <= t for c in self.d.values())

    def mono(self):
        if len(self.d) == 1:
            return next(iter(self.d.items()))
        return None

    def inv(self):
        r = self.r
        m = self.mono()
        if m:
            k, c = m
            ok = all(e == 0 or r.laurent[i] for i, e in enumerate(r.exps(k)))
            if ok:
                return Poly(r, {-k: (ONE * ONE) // c})
            # split off the Laurent part; a non-Laurent variable gets a named inverse
        if not self.d:
            raise ZeroDivisionError
        # pull the Laurent content out so that equal denominators share one name
        key = tuple(sorted((k, c >> (F - 160)) for k, c in self.d.items()))
        if key not in r.invcache:
            nm = 'inv%d' % len(r.invcache)
            v = r.var(nm)
            r.defs[nm] = ('inv', self)
            r.invcache[key] = v
        return r.invcache[key]

    def sqrt(self):
        r = self.r
        if not self.d:
            return self
        m = self.mono()
        if m:
            k, c = m
            if c > 0:
                es = r.exps(k)
                if all(e % 2 == 0 for e in es):
                    root = Poly(r, {0: math.isqrt(c << F)})
                    for i, e in enumerate(es):
                        if e:
                            if not r.nonneg[i] and (e // 2) % 2:
                                raise Unsupported('sqrt of square of signed ' + r.names[i])
                            root = root * Poly(r, {(e // 2) << (SH * i): ONE})
                    return root
        key = tuple(sorted((k, c >> (F - 160)) for k, c in self.d.items()))
        if key not in r.sqrtcache:
            nm = 'q%d' % len(r.sqrtcache)
            v = r.var(nm, lo=0, laurent=True, nonneg=True)
            r.relation(nm, self)
            r.defs[nm] = ('sqrt', self)
            r.sqrtcache[key] = v
        return r.sqrtcache[key]

    def sign(self):
        """+1/0 if provably >=0 termwise, -1 if provably <=0, None otherwise"""
        r = self.r; sg = None
        for k, c in self.d.items():
            for i, e in enumerate(r.exps(k)):
                if e % 2 and not r.nonneg[i]:
                    return None
            s = 1 if c > 0 else -1
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return sg if sg is not None else 1

    def subs(self, m):
        """substitute polynomials for variables: {index: Poly}"""
        r = self.r; out = Poly(r, {})
        cache = {}
        for k, c in self.d.items():
            t = None; rest = k
            for i in m:
                e = r.exp_of(k, i)
                if e:
                    rest -= e << (SH * i)
                    if (i, e) not in cache:
                        cache[(i, e)] = m[i].ipow(e)
                    t = cache[(i, e)] if t is None else t * cache[(i, e)]
            mono = Poly(r, {rest: c})
            out = out + (mono if t is None else mono * t)
        return out

    def eval(self, pt):
        """numeric value; pt: {name: float}"""
        r = self.r; tot = 0.0
        vals = [pt.get(n) for n in r.names]
        for k, c in self.d.items():
            t = unfp(c)
            for i, e in enumerate(r.exps(k)):
                if e:
                    v = vals[i]
                    if v is None:
                        v = vals[i] = r_def(r, r.names[i], pt)
                    t *= v ** e
            tot += t
        return tot

    def maxabs(self):
        return max((abs(unfp(c)) for c in self.d.values()), default=0.0)

    def show(self, n=6):
        r = self.r
        its = sorted(self.d.items(), key=lambda t: -abs(t[1]))[:n]
        return ' + '.join('%.4g*%s' % (unfp(c), '*'.join('%s^%d' % (r.names[i], e) for i, e in enumerate(r.exps(k)) if e) or '1') for k, c in its) + (' ...' if len(self.d) > n else '')


def r_def(r, name, pt):
    kind, p = r.defs[name]
    if kind == 'linf':
        pt[name] = v = max(abs(x.eval(pt)) for x in p)
        return v
    v = p.eval(pt)
    v = math.sqrt(max(v, 0.0)) if kind == 'sqrt' else 1.0 / v if kind == 'inv' else {'log': math.log, 'exp': math.exp, 'abs': abs}[kind](v)
    pt[name] = v
    return v


def linf(r, ps):
    """largest absolute value of several polynomials, one name per set of them"""
    m = {}
    for p in ps:
        if not p.d: continue
        it = tuple(sorted((k, c >> (F - 160)) for k, c in p.d.items()))
        if it[0][1] < 0: p = -p; it = tuple(sorted((k, c >> (F - 160)) for k, c in p.d.items()))
        m[it] = p
    if not m: return r.const(0)
    key = tuple(sorted(m)); cache = r.__dict__.setdefault('_linf', {})
    if key not in cache:
        nm = 'linf%d' % len(cache); cache[key] = r.var(nm, lo=0, nonneg=True); r.defs[nm] = ('linf', list(m.values()))
    return cache[key]


def linf_set(r, p):
    """the polynomials a value is the largest of (itself, unless it is such a maximum)"""
    m = p.mono()
    if m and m[1] == ONE:
        ix = [i for i, e in enumerate(r.exps(m[0])) if e]
        if len(ix) == 1 and r.exps(m[0])[ix[0]] == 1 and r.defs.get(r.names[ix[0]], ('', 0))[0] == 'linf': return r.defs[r.names[ix[0]]][1]
    return [p]


class Angle:
    """sum of integer multiples of named angles plus a constant"""
    __slots__ = ('k', 'c')

    def __init__(self, k, c=0.0):
        self.k = {n: v for n, v in k.items() if v}; self.c = c

    def __add__(self, o):
        if isinstance(o, Poly):
            if not o.is_const():
                raise Unsupported('angle + polynomial')
            return Angle(self.k, self.c + unfp(o.cval()))
        k = dict(self.k)
        for n, v in o.k.items():
            k[n] = k.get(n, 0) + v
        return Angle(k, self.c + o.c)

    def scale(self, x):
        k = {}
        for n, v in self.k.items():
            y = v * x
            if y != int(y):
                raise Unsupported('non-integer multiple of an angle')
            k[n] = int(y)
        return Angle(k, self.c * x)

    def cossin(self, r):
        C, S = r.const(1), r.const(0)
        if self.c:
            C, S = r.const(math.cos(self.c)), r.const(math.sin(self.c))
        for n, m in self.k.items():
            c, s = r.angles[n]
            cm, sm = mult_angle(r, n, abs(m))
            if m < 0:
                sm = -sm
            C, S = C * cm - S * sm, C * sm + S * cm
        return C, S


def mult_angle(r, n, m):
    cache = r.__dict__.setdefault('_ma', {})
    if (n, m) in cache:
        return cache[(n, m)]
    if m == 0:
        v = (r.const(1), r.const(0))
    else:
        c, s = r.angles[n]
        a, b = mult_angle(r, n, m - 1)
        v = (a * c - b * s, a * s + b * c)
    cache[(n, m)] = v
    return v
