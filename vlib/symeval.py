"""Evaluates a DAG in the ring."""
import math
from dag import *
from ring import *


def as_angle(r, y, x):
    if x.is_const() and y.is_const():
        return Angle({}, math.atan2(unfp(y.cval()), unfp(x.cval())))
    for n, (c, s) in r.angles.items():
        if (y * c - x * s).is_zero():
            g = x * c + y * s
            if g.sign() == 1:
                return Angle({n: 1})
            if g.sign() == -1:
                return Angle({n: 1}, math.pi)
    h = (x * x + y * y).sqrt()
    ih = h.inv()
    n = 'dir%d' % len(r.angles)
    r.angles[n] = (x * ih, y * ih)
    return Angle({n: 1})


def evaluate(dag, ring, subst, roots, hook=None, denoms=None):
    """{node: Poly|Angle} for the nodes under roots.  subst maps program inputs
    to Poly (all inputs reached must be mapped)."""
    ids = dag.reach(roots)
    v = {}
    op, a, b, c, w, fval, vals = dag.op, dag.a, dag.b, dag.c, dag.w, dag.fval, dag.vals
    for i in ids:
        i = int(i); o = int(op[i]); wi = int(w[i])
        if hook:
            h = hook(i, o, v)
            if h is not None:
                v[i] = h
                continue
        if i in dag.pick:
            v[i] = v[dag.pick[i]] if dag.pick[i] else ring.const(int(vals[i]) & 1)
            continue
        if o == O_CONST:
            v[i] = ring.const(float(fval[i])) if wi & 256 else int(vals[i])
            continue
        if o == O_VAR:
            v[i] = subst[dag.varname[int(a[i])]]
            continue
        x = v.get(int(a[i])); y = v.get(int(b[i])) if b[i] else None
        if isinstance(x, Angle) or isinstance(y, Angle):
            if o == O_FMUL:
                if isinstance(x, Poly):
                    x, y = y, x
                if not y.is_const():
                    raise Unsupported('angle times polynomial')
                v[i] = x.scale(unfp(y.cval())); continue
            if o == O_FDIV and isinstance(x, Angle) and y.is_const():
                v[i] = x.scale(1 / unfp(y.cval())); continue
            if o == O_FADD:
                v[i] = x + y if isinstance(x, Angle) else y + x; continue
            if o == O_FSUB:
                v[i] = x + (y.scale(-1) if isinstance(y, Angle) else -y) if isinstance(x, Angle) else y.scale(-1) + x; continue
            if o == O_FNEG:
                v[i] = x.scale(-1); continue
            if o == O_SIN:
                v[i] = x.cossin(ring)[1]; continue
            if o == O_COS:
                v[i] = x.cossin(ring)[0]; continue
            raise Unsupported('%s of an angle' % OPS[o])
        if o == O_FADD: v[i] = x + y
        elif o == O_FSUB: v[i] = x - y
        elif o == O_FMUL: v[i] = x * y
        elif o == O_FDIV:
            if denoms is not None and not y.is_const():
                denoms.append((i, y))
            v[i] = (x * y.inv()) if not y.is_const() else x * Poly(ring, {0: (ONE * ONE) // y.cval()})
        elif o == O_FNEG: v[i] = -x
        elif o == O_SQRT:
            v[i] = Poly(ring, {0: math.isqrt(x.cval() << F)}) if x.is_const() and x.cval() >= 0 else x.sqrt()
        elif o == O_POW:
            if not y.is_const():
                raise Unsupported('pow with symbolic exponent')
            e = unfp(y.cval())
            if e == int(e):
                if e < 0 and denoms is not None:
                    denoms.append((i, x))
                v[i] = x.ipow(int(e))
            elif 2 * e == int(2 * e):
                v[i] = x.sqrt().ipow(int(2 * e))
            else:
                raise Unsupported('pow %g' % e)
        elif o == O_ATAN2: v[i] = as_angle(ring, x, y)
        elif o in (O_COS, O_SIN):
            if not x.is_const():
                raise Unsupported('trig of polynomial')
            t = unfp(x.cval()); v[i] = ring.const(math.cos(t) if o == O_COS else math.sin(t))
        elif o == O_FABS:
            s = x.sign()
            if s == 1: v[i] = x
            elif s == -1: v[i] = -x
            else:
                v[i] = named(ring, 'abs', x, nonneg=True)
        elif o == O_NMAX: v[i] = linf(ring, linf_set(ring, x if isinstance(x, Poly) else ring.const(x)) + linf_set(ring, y if isinstance(y, Poly) else ring.const(y or 0)))
        elif o == O_LOG: v[i] = logp(ring, x)
        elif o == O_EXP: v[i] = named(ring, 'exp', x)
        elif o == O_SITOFP or o == O_UITOFP: v[i] = ring.const(x) if isinstance(x, int) else x
        elif o in (O_ADD, O_SUB, O_MUL):      # integers of the inputs' small ranges: no wrap-around
            x, y = (ring.const(t - (1 << wi) if t >> (wi - 1) else t) if isinstance(t, int) else t for t in (x, y))
            v[i] = x + y if o == O_ADD else x - y if o == O_SUB else x * y
        elif o in (O_FPEXT, O_FPTRUNC, O_ZEXT, O_SEXT): v[i] = x
        else:
            raise Unsupported('op %s' % OPS[o])
    return v


def logp(ring, x):
    """log of c*prod(v^e) as log c + sum e log v, where every v is positive"""
    m = x.mono()
    if m and m[1] > 0:
        es = ring.exps(m[0])
        if all(e == 0 or ring.nonneg[i] for i, e in enumerate(es)):
            t = ring.const(math.log(unfp(m[1])))
            for i, e in enumerate(es):
                if e:
                    t = t + named(ring, 'log', Poly(ring, {1 << (SH * i): ONE})) * e
            return t
    return named(ring, 'log', x)


def named(ring, kind, x, nonneg=False):
    key = (kind,) + tuple(sorted((k, c >> (F - 160)) for k, c in x.d.items()))
    cache = ring.__dict__.setdefault('_named', {})
    if key not in cache:
        nm = '%s%d' % (kind, len(cache))
        cache[key] = ring.var(nm, nonneg=nonneg, lo=0 if nonneg else None)
        ring.defs[nm] = (kind, x)
    return cache[key]
