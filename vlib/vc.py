"""Check framework: symbolic runs, solver queries, replays, evidence."""
import atexit, json, math, os, random, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import build
from build import Harness, run, read_replay, ROOT, REPO
from dag import *
from ring import *
from symeval import *


class NoAnswer(Exception):
    pass


def q(c):
    """fixed-point coefficient as an exact z3 rational"""
    return z3.RealVal(str(Fraction(c, ONE)))


def qf(x):
    return z3.RealVal(str(Fraction(x)))


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vc-%s-' % pid)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.queries = []          # (name, result, seconds)
        self.functions = {}        # /repo function -> lines executed symbolically
        self.paths = 0; self.runs = 0; self.nodes = 0; self.replays = 0
        self.bounds = []; self.assumptions = []; self.outside = []; self.samples = []
        self.violations = []; self.known = []; self.infeasible = 0
        self.extlost = {}
        self.validated = 0; self.pending = []
        self._kf = self._load_known()
        self.solver_s = 0.0

    # ------------------------------------------------------------ known findings
    def _load_known(self):
        out = {}
        p = os.path.join(ROOT, 'known_findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith('#'):
                    j = json.loads(l)
                    if j['property'] == self.pid and j['status'] == 'known':
                        out[j['signature']] = j
        return out

    # ------------------------------------------------------------ symbolic runs
    def sym(self, h, inputs=None, args=(), timeout=600, allow_fail=False):
        self.runs += 1
        out = os.path.join(self.tmp, 'run%d' % self.runs)
        rc, tail = run(h.sym, out, inputs, args, timeout)
        if rc != 0:
            if allow_fail:
                return rc, tail
            # an abnormal end of the program: does the ordinary build end so too?
            rrc, rtail = self.rep(h, inputs, args, timeout, raw=True)
            if rrc not in (0, 77):
                self.violation('crash:%s:%s' % (h.name, ' '.join(map(str, args))), h, inputs, args,
                               'the program ends abnormally (status %s) on this input: %s' % (rrc, rtail[-400:]))
                raise Crash()
            raise NoAnswer('symbolic run of %s failed (%s): %s' % (h.name, rc, tail))
        d = Dag(out)
        for f, fi, ln, hits in d.sites:
            if fi.startswith(REPO + '/'):
                self.functions.setdefault(demangle(f), set()).add(ln)
        self.nodes += len(d.op)
        for k, n in d.exts.items():
            self.extlost[k] = self.extlost.get(k, 0) + n
        os.unlink(out + '.nodes')
        return d

    def rep(self, h, inputs=None, args=(), timeout=600, raw=False):
        self.replays += 1
        out = os.path.join(self.tmp, 'rep%d' % self.replays)
        rc, tail = run(h.rep, out, inputs, args, timeout)
        if raw:
            return rc, tail
        if rc != 0:
            return None
        return read_replay(out)

    # ------------------------------------------------------------ verdicts
    def violation(self, sig, h, inputs, args, what):
        if sig in self._kf:
            if sig not in [k[0] for k in self.known]:
                self.known.append((sig, self._kf[sig]['what']))
            return
        rd = os.path.join(ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%d.json' % (self.pid, len(self.violations)))
        json.dump({'property': self.pid, 'signature': sig, 'harness': h.name if h else None, 'args': [str(a) for a in args],
                   'inputs': inputs or {}, 'what': what}, open(path, 'w'), indent=1)
        self.violations.append((sig, path, what))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('  %s: %s' % (sig, what)); sys.stdout.flush()

    def record(self, name, res, dt):
        self.queries.append((name, str(res), dt)); self.solver_s += dt

    # ------------------------------------------------------------ solver queries
    def box(self, r, name, diff, tol):
        """Ask: can |diff| exceed tol, each monomial ranging over the interval its
        variables' bounds allow?  unsat: no.  Coefficients are rounded to multiples of
        tol/2^24 and the rounding is taken off the tolerance."""
        terms = []
        cache = {}
        for k, c in diff.d.items():
            lo, hi = 1.0, 1.0
            for i, e in enumerate(r.exps(k)):
                if e:
                    if (i, e) not in cache:
                        a, b = r.lo[i], r.hi[i]
                        if a is None or b is None:
                            raise Unsupported('unbounded variable ' + r.names[i])
                        a, b = float(a), float(b)
                        if e < 0 and a <= 0 <= b:
                            raise Unsupported('negative power of a variable that may vanish: ' + r.names[i])
                        ps = [a ** e, b ** e] + ([0.0] if a < 0 < b else [])
                        cache[i, e] = (min(ps), max(ps))
                    l2, h2 = cache[i, e]
                    c4 = (lo * l2, lo * h2, hi * l2, hi * h2)
                    lo, hi = min(c4), max(c4)
            terms.append((c, lo, hi))
        return self.linbox(name, terms, tol)

    def linbox(self, name, terms, tol):
        """terms: (fixed-point coefficient, lo, hi)"""
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 60000)
        t0 = time.time()
        unit = Fraction(tol) / (1 << 24)
        es = []; slack = 0.0
        for j, (c, lo, hi) in enumerate(terms):
            big = max(abs(lo), abs(hi), 1e-300)
            # m = big * u, u in [lo/big, hi/big] widened
            ci = round(Fraction(c, ONE) * Fraction(big) / unit)
            slack += 1.0
            if ci == 0:
                continue
            u = z3.Real('m%d' % j)
            l, h_ = math.floor(lo / big * 1024) , math.ceil(hi / big * 1024)
            s.add(u >= max(l, -1024), u <= min(h_, 1024))   # u in units of 1/1024
            es.append(z3.IntVal(ci) * u)
        goal = (1 << 24) - int(slack) - 1
        if goal <= 0:
            raise NoAnswer('rounding slack')
        if es:
            e = z3.Sum(es); g = goal * 1024
            s.add(z3.Or(e > g, e < -g))
        else:
            s.add(z3.RealVal(0) > goal)
        res = s.check()
        self.record(name, res, time.time() - t0)
        return str(res)

    def witness(self, r, diff, tol, tries=24, extra=None, want=50, fixed=None):
        """A point of the variables' ranges (respecting the ring's relations) where
        |diff| > tol, from z3 on the polynomial itself with all but a few
        variables fixed; None if none was found."""
        used = set()
        for k in diff.d:
            for i, e in enumerate(r.exps(k)):
                if e:
                    used.add(r.names[i])
        trig = {}
        for n, (c, s) in r.angles.items():
            trig['c_' + n] = n; trig['s_' + n] = n
        best = None
        for attempt in range(tries):
            t0 = time.time()
            pt = {n: Fraction(v) for n, v in (fixed or {}).items()}
            for n, (c, s) in r.angles.items():
                ns = r.nonneg[r.idx['s_' + n]]
                t = Fraction(self.rng.randint(5, 95), 100) if ns else Fraction(self.rng.randint(-300, 300), 100)
                if ns and self.rng.random() < .5:
                    pt['c_' + n] = -((1 - t * t) / (1 + t * t))
                else:
                    pt['c_' + n] = (1 - t * t) / (1 + t * t)
                pt['s_' + n] = 2 * t / (1 + t * t)
            for i, n in enumerate(r.names):
                if n in pt or n in r.defs:
                    continue
                lo, hi = r.lo[i], r.hi[i]
                lo = Fraction(lo) if lo is not None else Fraction(-2); hi = Fraction(hi) if hi is not None else lo + 4
                if lo > 0 and hi > 100 * lo: pt[n] = Fraction(float(lo) * float(hi / lo) ** self.rng.uniform(0.01, 0.99))
                else: pt[n] = lo + (hi - lo) * Fraction(self.rng.randint(1, 999), 1000)
            free = [n for n in used if n not in trig and n not in r.defs and n not in (fixed or ())]
            free = self.rng.sample(free, min(1, len(free)))
            s = z3.Solver(); s.set('timeout', 4000)
            zv = {}
            for n in r.names:
                if n in r.defs:
                    zv[n] = z3.Real(n)
                elif n in free:
                    zv[n] = z3.Real(n)
                    i = r.idx[n]
                    if r.lo[i] is not None: s.add(zv[n] >= qf(r.lo[i]))
                    if r.hi[i] is not None: s.add(zv[n] <= qf(r.hi[i]))
                else:
                    zv[n] = qf(pt[n])
            for n, (kind, p) in r.defs.items():
                if kind != 'linf':
                    e = z3poly(r, p, zv)
                    if kind == 'sqrt': s.add(zv[n] >= 0, zv[n] * zv[n] == e)
                    elif kind == 'inv': s.add(zv[n] * e == 1)
            D = z3poly(r, diff, zv)
            goal = qf(Fraction(tol) * (want if attempt < tries // 2 else 1))
            s.add(z3.Or(D > goal, D < -goal))
            if extra:
                for e in extra(zv): s.add(e)
            res = s.check()
            self.record('witness', res, time.time() - t0)
            if res == z3.sat:
                m = s.model()
                for n in free:
                    pt[n] = zval(m.eval(zv[n], model_completion=True))
                return {k: float(v) for k, v in pt.items()}
        return best

    # ------------------------------------------------------------ end of run
    def finish(self, explanation=''):
        wall = time.time() - self.t0
        res = {}
        for n, r_, t in self.queries:
            res[r_] = res.get(r_, 0) + 1
        cov = {'explanation': explanation or 'bounded symbolic execution of the instrumented code; each obligation decided by an SMT solver',
               'functions_encoded': {k: sorted(v) for k, v in sorted(self.functions.items())},
               'functions_encoded_count': len(self.functions),
               'bounds': self.bounds, 'outside_the_claim': self.outside,
               'symbolic_runs': self.runs, 'paths': self.paths, 'infeasible_or_excluded_branches': self.infeasible, 'expression_nodes': int(self.nodes),
               'queries': len(self.queries), 'query_results': res, 'solver_seconds': round(self.solver_s, 3),
               'outputs_validated_against_concrete_run': self.validated, 'replays_on_plain_build': self.replays,
               'symbolic_arguments_given_to_unencoded_functions': self.extlost,
               'known_findings_reproduced': [k[0] for k in self.known],
               'samples': self.samples[:6]}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for sig, what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        print('%s %s: %d queries (%s), %d symbolic runs, %d functions, %.1fs' % (self.pid, self.tier, len(self.queries), ', '.join('%s %s' % (v, k) for k, v in res.items()), self.runs, len(self.functions), wall))
        return 1 if self.violations else 0


class Crash(Exception):
    pass


_dem = {}
def demangle(s):
    if s not in _dem:
        import subprocess
        _dem[s] = subprocess.run(['c++filt', s], stdout=subprocess.PIPE).stdout.decode().strip()
    return _dem[s]


def z3poly(r, p, zv):
    ts = []
    for k, c in p.d.items():
        t = q(c)
        for i, e in enumerate(r.exps(k)):
            if e > 0:
                for _ in range(e): t = t * zv[r.names[i]]
            elif e < 0:
                t = t / (zv[r.names[i]] if e == -1 else _zp(zv[r.names[i]], -e))
        ts.append(t)
    return z3.Sum(ts) if ts else z3.RealVal(0)


def _zp(x, n):
    t = x
    for _ in range(n - 1): t = t * x
    return t


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise NoAnswer('value %s' % v)


def main(pid, fn):
    c = Ctx(pid)
    try:
        try:
            expl = fn(c)
        except Crash:
            expl = 'stopped at a crash of the code under test'
        rc = c.finish(expl or '')
        if c.pending and not c.violations:
            raise NoAnswer('; '.join(c.pending[:3]))
    except build.BuildError as e:
        print('BUILD-ERROR', e); sys.exit(2)
    except (NoAnswer, Unsupported) as e:
        traceback.print_exc()
        if c.violations:
            c.finish('stopped early: %s' % e); sys.exit(1)
        print('NO-ANSWER', e); sys.exit(2)
    sys.exit(rc)


# ---------------------------------------------------------------- exploration
CMP = {O_FCMP_EQ: '==', O_FCMP_NE: '!=', O_FCMP_GT: '>', O_FCMP_GE: '>=', O_FCMP_LT: '<', O_FCMP_LE: '<='}
# integers: variables are given non-negative ranges below 2^31, so signed and unsigned order agree
ICMP = {O_ICMP_EQ: '==', O_ICMP_NE: '!=', O_ICMP_UGT: '>', O_ICMP_UGE: '>=', O_ICMP_ULT: '<', O_ICMP_ULE: '<=', O_ICMP_SGT: '>', O_ICMP_SGE: '>=', O_ICMP_SLT: '<', O_ICMP_SLE: '<='}
ALLCMP = {**CMP, **ICMP}


def isbool(d, i):
    """does this node hold a truth value?"""
    o = int(d.op[i])
    if o in ALLCMP or int(d.w[i]) == 1: return True
    if o == O_CONST: return int(d.vals[i]) in (0, 1)
    if o in (O_AND, O_OR, O_XOR): return isbool(d, int(d.a[i])) and isbool(d, int(d.b[i]))
    if o in (O_TRUNC, O_ZEXT): return isbool(d, int(d.a[i]))
    if o == O_SELECT: return isbool(d, int(d.b[i])) and isbool(d, int(d.c[i]))
    return False


def choices(d, roots):
    """Values chosen by a condition without a branch (conditional moves, truth values used
    as numbers, minima and maxima): this path takes the side the run took, under the
    condition that decides it."""
    seen = set(); out = []; st = [int(x) for x in roots if x][::-1]
    def put(i, k, form, taken):
        d.pick[i] = k; out.append([form, int(taken), 3, 'choice %d' % len(out)])
        if k: st.append(k)
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i); o = int(d.op[i]); a, b, c = int(d.a[i]), int(d.b[i]), int(d.c[i])
        if o <= 1: continue
        if isbool(d, i): put(i, 0, boolform(d, i), int(d.vals[i]) & 1)
        elif o == O_SELECT:
            t = int(d.vals[a]) & 1; put(i, b if t else c, boolform(d, a), t)
        elif o in (O_FMAX, O_FMIN):
            t = d.fval[a] >= d.fval[b]; put(i, a if t == (o == O_FMAX) else b, ('cmp', O_FCMP_GE, a, b), t)
        else: st += [k for k in (c, b, a) if k]
    return out


def mkzv(r, intvars=()):
    return {n: z3.ToReal(z3.Int(n)) if n in intvars else z3.Real(n) for n in r.names}


def boolform(d, node):
    """(kind, ...) normal form of a condition: booleans travel through bytes"""
    o = int(d.op[node])
    if o in CMP: return ('cmp', o, int(d.a[node]), int(d.b[node]))
    if o in (O_AND, O_OR, O_XOR):
        return ({O_AND: 'and', O_OR: 'or', O_XOR: 'xor'}[o], boolform(d, int(d.a[node])), boolform(d, int(d.b[node])))
    if o == O_CONST: return ('const', bool(int(d.vals[node]) & 1))
    if o in (O_TRUNC, O_ZEXT): return boolform(d, int(d.a[node]))
    if o in ICMP and not (isbool(d, int(d.a[node])) and isbool(d, int(d.b[node]))):
        return ('cmp', o, int(d.a[node]), int(d.b[node]))
    if o in (O_ICMP_EQ, O_ICMP_NE):
        x, y = int(d.a[node]), int(d.b[node])
        if int(d.op[x]) == O_CONST: x, y = y, x
        if int(d.op[y]) == O_CONST and int(d.vals[y]) in (0, 1):
            f = boolform(d, x)
            neg = (o == O_ICMP_EQ) == (int(d.vals[y]) == 0)
            return ('not', f) if neg else f
    if o == O_SELECT:
        return ('ite', boolform(d, int(d.a[node])), boolform(d, int(d.b[node])), boolform(d, int(d.c[node])))
    raise Unsupported('condition ' + OPS[o])


def zform(f, r, vals, zv):
    k = f[0]
    if k == 'cmp':
        x, y = vals[f[2]], vals[f[3]]
        if isinstance(x, int): x = r.const(x)
        if isinstance(y, int): y = r.const(y)
        e = z3poly(r, x - y, zv)
        return {'==': e == 0, '!=': e != 0, '>': e > 0, '>=': e >= 0, '<': e < 0, '<=': e <= 0}[ALLCMP[f[1]]]
    if k == 'const': return z3.BoolVal(f[1])
    s = [zform(x, r, vals, zv) for x in f[1:]]
    return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'not': z3.Not, 'ite': z3.If}[k](*s)


def zcond(d, r, vals, node, zv):
    """z3 formula of a boolean DAG node"""
    return zform(node if isinstance(node, tuple) else boolform(d, node), r, vals, zv)


def cond_leaves(d, node, out):
    def go(f):
        if f[0] == 'cmp': out.extend(f[2:4])
        else:
            for x in f[1:]:
                if isinstance(x, tuple): go(x)
    go(node if isinstance(node, tuple) else boolform(d, node))


def ring_constraints(r, zv):
    cs_ = []
    for i, n in enumerate(r.names):
        if r.lo[i] is not None: cs_.append(zv[n] >= qf(r.lo[i]))
        if r.hi[i] is not None: cs_.append(zv[n] <= qf(r.hi[i]))
    for n, (c, s) in r.angles.items():
        if 'c_' + n in zv:
            cs_.append(zv['c_' + n] * zv['c_' + n] + zv['s_' + n] * zv['s_' + n] == 1)
    for n, (kind, p) in r.defs.items():
        if kind == 'linf':
            es = [z3poly(r, x, zv) for x in p]
            cs_ += [zv[n] >= 0] + [z3.And(zv[n] >= e, zv[n] >= -e) for e in es] + [z3.Or([z3.Or(zv[n] == e, zv[n] == -e) for e in es])]
            continue
        e = z3poly(r, p, zv)
        if kind == 'sqrt': cs_ += [zv[n] >= 0, zv[n] * zv[n] == e]
        elif kind == 'inv': cs_.append(zv[n] * e == 1)
        elif kind == 'abs': cs_ += [zv[n] >= 0, z3.Or(zv[n] == e, zv[n] == -e)]
    return cs_


def random_point(r, rng):
    pt = {}
    for n, (c, s) in r.angles.items():
        if 's_' + n not in r.idx:
            continue
        ns = r.nonneg[r.idx['s_' + n]]
        t = rng.uniform(0.3, 2.8) if ns else rng.uniform(0.3, 6.0)
        pt['c_' + n] = math.cos(t); pt['s_' + n] = math.sin(t)
    for i, n in enumerate(r.names):
        if n in pt or n in r.defs:
            continue
        lo = r.lo[i] if r.lo[i] is not None else -1.5; hi = r.hi[i] if r.hi[i] is not None else lo + 3
        lo, hi = float(lo), float(hi)
        if lo > 0 and hi > 100 * lo: pt[n] = lo * (hi / lo) ** rng.uniform(0.02, 0.98)
        else: pt[n] = lo + (hi - lo) * rng.uniform(0.15, 0.9)
    return pt


def explore(ctx, *a, **kw):
    import signal
    class Slow(Exception): pass
    def onalarm(*_): raise Slow('time limit')
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(kw.pop('limit', 1800 if ctx.thorough else 200)))
    ctx.last = None
    try:
        return _explore(ctx, *a, **kw)
    except (NoAnswer, Unsupported, Slow) as e:
        signal.alarm(0)
        ctx.pending.append('%s: %s' % (kw.get('label', ''), e))
        if ctx.last:      # the encoding did not get through: a disagreement may still be plain
            h, args, r, sub, ex, rpt, pt = ctx.last
            pts = [p_ for p_ in near_points(r, r.const(0), pt, rpt, ctx.rng)]
            refute(ctx, h, args, r, sub, ex, kw.get('tol', a[4] if len(a) > 4 else 1e-6), kw.get('label', ''), kw.get('sigbase'), 'no solver verdict (%s); found on the ordinary build' % e, pts=pts, intvars=kw.get('intvars', ()), weight=kw.get('weight'), reltol=kw.get('reltol', 0))
        return None
    finally:
        signal.alarm(0)


def _explore(ctx, h, args, setup, spec, tol, maxpaths=16, label='', sigbase=None, rel=None, equalities=True, roots=None, intvars=(), reltol=0, weight=None, alts=(), neutral=None, atoms=None):
    """Concolic exploration of one harness mode.

    setup() -> (ring, {input: Poly}); spec(ring, dag) -> {output: Poly}: what each
    output must equal.  Every path the solver finds feasible is run, and on each the
    solver decides |output - spec| <= tol over the ring variables' ranges.
    atoms(zv) -> [(label, formula)]: the specification's own case distinctions over the
    intvars; every feasible combination of them with the code's paths is explored."""
    tol0 = tol; held = {}
    r0, sub0 = setup()
    def inp(sub, pt):
        return {k: (int(round(p.eval(dict(pt)))) if k in intvars else float(p.eval(dict(pt)))) for k, p in sub.items()}
    def rpt(r):
        pt = random_point(r, ctx.rng)
        for k in intvars:
            lo, hi = r.lo[r.idx[k]], r.hi[r.idx[k]]; pt[k] = float(ctx.rng.randint(int(lo or 0), int(min(hi if hi is not None else 2 ** 20, 2 ** 20))))
        pt.update(held)
        return pt
    work = [rpt(r0)]
    seen = set(); queued = set(); first = True
    while work:
        pt = work.pop()
        r, sub = setup()
        inputs = inp(sub, pt)
        d = ctx.sym(h, inputs, args)
        if neutral: d.pcs = [pc for pc in d.pcs if not re.search(neutral, pc[3])]
        zv = mkzv(r, intvars); at = []
        if atoms:
            cp = [(z3.Int(k), z3.IntVal(int(round(pt[k])))) for k in intvars]
            for l_, f_ in atoms(zv):
                t_ = z3.simplify(z3.substitute(f_, cp))
                if not (z3.is_true(t_) or z3.is_false(t_)): raise NoAnswer('case %s undecided' % l_)
                at.append((l_, f_, z3.is_true(t_)))
            held = {k: pt[k] for k in intvars}; ctx.cases = {l_: t_ for l_, f_, t_ in at}
        roots = [d.outs[n][0] for n in d.outs]
        for pc in d.pcs: cond_leaves(d, pc[0], roots)
        k = 0
        while k < len(roots):       # conditions of choices may rest on further choices
            new = choices(d, roots[k:]); k = len(roots); d.pcs = d.pcs + new
            for pc in new: cond_leaves(d, pc[0], roots)
        sig = tuple((pc[3], pc[1]) for pc in d.pcs) + tuple((l_, t_) for l_, f_, t_ in at)
        if sig in seen:
            continue
        seen.add(sig); ctx.paths += 1
        if ctx.paths and len(seen) > maxpaths:
            raise NoAnswer('more than %d paths in %s' % (maxpaths, label))
        ex = spec(r, d)
        ctx.last = (h, args, r, sub, ex, rpt, pt)
        known_alts = [(sg_, f_) for sg_, f_ in alts if sg_ in ctx._kf]; alt = {}
        ctx.alts = [f_(r, d) for sg_, f_ in known_alts]
        outs = [n for n in d.outs if n in ex] if isinstance(ex, dict) else list(d.outs)
        missing = [n for n in ex if n not in d.outs]
        if missing:
            raise NoAnswer('outputs missing: %s' % missing[:3])
        need = [d.outs[n][0] for n in outs]
        lv = []
        for pc in d.pcs: cond_leaves(d, pc[0], lv)
        try:
            vals = evaluate(d, r, sub, need + lv)
        except (Unsupported, ZeroDivisionError, ValueError) as e:
            refute(ctx, h, args, r, sub, ex, tol, label, sigbase, 'not encodable (%s)' % e, pts=[pt] + [rpt(r) for _ in range(4)], intvars=intvars, weight=weight)
            raise NoAnswer('encoding: %s' % e)
        # equalities fixed by the path
        eqm = {}
        for e, taken, kind, site in d.pcs:
            if isinstance(e, tuple): continue
            o = int(d.op[e])
            if o in (O_FCMP_EQ, O_FCMP_NE) and bool(taken) == (o == O_FCMP_EQ):
                df = vals[int(d.a[e])] - vals[int(d.b[e])]
                if 0 < len(df.d) <= 2:
                    nz = [k for k in df.d if k != 0]
                    if len(nz) == 1:
                        es = r.exps(nz[0]); ii = [i for i, x in enumerate(es) if x]
                        if len(ii) == 1 and es[ii[0]] == 1:
                            eqm[ii[0]] = r.const(-Fraction(df.d.get(0, 0), df.d[nz[0]]))
        # validate the encoding against the concrete run
        for n in outs:
            e, w, bits = d.outs[n]
            cv = d.outval(n)
            pv = vals[e].eval(dict(pt)) if e else cv
            wv = abs(weight(r, n).eval(dict(pt))) if weight else 1.0
            if not (abs(pv - cv) * wv <= 1e-6 * max(1.0, abs(cv) * wv)) and not (math.isnan(cv)):
                raise NoAnswer('encoding of %s disagrees with the run: %r vs %r' % (n, pv, cv))
            if math.isnan(cv):
                refute(ctx, h, args, r, sub, ex, tol, label, sigbase, 'NaN', pts=[pt], intvars=intvars, weight=weight)
                raise NoAnswer('NaN not reproduced')
            ctx.validated += 1
        for n in outs:
            e, w, bits = d.outs[n]
            got = vals[e] if e else r.const(d.outval(n))
            sp = ex[n]
            diff = got - sp
            tol = tol0 if not reltol else max(tol0, reltol * sum(abs(unfp(v)) for v in sp.d.values()))
            if eqm and equalities:
                diff = diff.subs(eqm)
            if weight: diff = diff * weight(r, n)
            try:
                res = ctx.box(r, '%s:%s' % (label, n), diff, tol)
            except Unsupported as e:
                res = 'sat (%s)' % e      # outside the interval abstraction: look for a concrete point
            if first and len(ctx.samples) < 6:
                ctx.samples.append({'query': '%s %s' % (label, n), 'normal_form_of_output': got.show(4), 'largest_coefficient_of_difference': diff.maxabs(), 'tolerance': tol, 'answer': res})
            if res == 'unsat':
                continue
            if res == 'unknown':
                raise NoAnswer('solver gave no answer on %s %s' % (label, n))
            hit = False
            for sg_, f_ in known_alts:      # a recorded finding: exactly that deviation and no other
                if sg_ not in alt: alt[sg_] = f_(r, d)
                if ctx.box(r, '%s:%s as recorded (%s)' % (label, n, sg_), got - alt[sg_][n], tol) == 'unsat':
                    ctx.violation(sg_, h, inputs, args, ''); hit = True; break
            if hit: continue
            # with everything known about this path
            pts = []
            if len(diff.d) <= 3000 and len(d.pcs) <= 300:
                zv = mkzv(r, intvars); s = z3.Solver(); s.set('timeout', 15000); t0 = time.time()
                s.add(ring_constraints(r, zv)); s.add([zcond(d, r, vals, pc[0], zv) == bool(pc[1]) for pc in d.pcs]); s.add([f_ == t_ for l_, f_, t_ in at])
                D_ = z3poly(r, diff, zv); s.add(z3.Or(D_ > qf(tol), D_ < -qf(tol)))
                res = s.check(); ctx.record('%s:%s on its path' % (label, n), res, time.time() - t0)
                if res == z3.unsat: continue
                if res == z3.sat:
                    m = s.model(); npt = {}
                    for n_ in r.names:
                        if n_ in r.defs: continue
                        v = m.eval(zv[n_], model_completion=True)
                        if z3.is_rational_value(v) or z3.is_algebraic_value(v): npt[n_] = float(zval(v))
                    if all(n_ in npt for n_ in r.names if n_ not in r.defs): pts.append(npt)
            # counterexample to the abstraction: find a genuine point
            extra = lambda zv: [zcond(d, r, vals, pc[0], zv) == bool(pc[1]) for pc in d.pcs]
            w_ = ctx.witness(r, diff, tol, extra=extra, fixed={k: int(round(pt[k])) for k in intvars}) if not eqm else None
            pts += [w_] if w_ else []
            pts += near_points(r, diff, pt, rpt, ctx.rng)
            if refute(ctx, h, args, r, sub, {n: sp}, tol, label, sigbase, 'differs from its specification', pts=pts, intvars=intvars, weight=weight):
                return False
            raise NoAnswer('no concrete witness for %s %s (difference %s)' % (label, n, diff.show()))
        first = False
        # other branches
        zv = mkzv(r, intvars)
        conds = [(pc[3], pc[1], None, pc[0]) for pc in d.pcs] + [(l_, t_, f_, 0) for l_, f_, t_ in at]
        def cond(c_): return zcond(d, r, vals, c_[3], zv) if c_[2] is None else c_[2]
        for i, c_ in enumerate(conds):
            fl = sig[:i] + ((c_[0], not c_[1] if c_[2] is not None else 1 - c_[1]),)
            if fl in queued or any(x[:i + 1] == fl for x in seen):
                continue
            queued.add(fl)
            s = z3.Solver(); s.set('timeout', 20000)
            s.add([cond(p_) == bool(p_[1]) for p_ in conds[:i]] + [cond(c_) != bool(c_[1])]); s.add(ring_constraints(r, zv))
            pc = (0, 0, 0, c_[0])
            t0 = time.time(); res = s.check(); ctx.record('branch %s' % pc[3], res, time.time() - t0)
            if res == z3.unsat:
                ctx.infeasible += 1
            elif res == z3.sat:
                m = s.model()
                npt = dict(pt)
                for n in r.names:
                    if n in r.defs: continue
                    v = m.eval(zv[n])
                    if z3.is_rational_value(v) or z3.is_algebraic_value(v):
                        npt[n] = float(zval(v))
                npt = {k: v for k, v in npt.items() if k not in r.defs}
                work.append(npt)
            else:
                ctx.outside.append('other side of the branch at %s in %s: the solver gave no answer' % (pc[3], label))
    return True


def near_points(r, diff, pt, rpt, rng):
    """candidate counterexamples: the path's own point and variations of it that keep what
    is special about it (vanishing and unit values), random points, and the worst of many by the normal form"""
    out = []
    zero = [n for n in r.names if n in pt and abs(pt[n]) < 1e-12]
    def vary():
        q = rpt(r)
        for n in zero:
            q[n] = pt[n]
            for b, (c, s) in r.angles.items():
                if n == 's_' + b: q['c_' + b] = rng.choice([1.0, -1.0])
                if n == 'c_' + b: q['s_' + b] = 1.0 if r.nonneg[r.idx['s_' + b]] else rng.choice([1.0, -1.0])
        for b, (c, s) in r.angles.items():
            if 's_' + b in zero or 'c_' + b in zero: continue
            if rng.random() < .3:     # close to the ends of the angle's range
                lo = float(r.lo[r.idx['s_' + b]]) if r.nonneg[r.idx['s_' + b]] else 0.0
                v = max(lo * 1.01, 10 ** rng.uniform(-7, -1)); q['s_' + b] = v; q['c_' + b] = rng.choice([1, -1]) * math.sqrt(1 - v * v)
        return q
    out.append(pt)
    cand = [vary() for _ in range(max(5, min(400, 300000 // (1 + len(diff.d)))))]
    sc = []
    for q_ in cand:
        try: sc.append((abs(diff.eval(dict(q_))), q_))
        except (ValueError, ZeroDivisionError, OverflowError): pass
    sc.sort(key=lambda x: -x[0])
    out += [q_ for v, q_ in sc[:6]] + [vary() for _ in range(4)]
    return out


def refute(ctx, h, args, r, sub, ex, tol, label, sigbase, why, pts=None, intvars=(), weight=None, reltol=0):
    """confirm a disagreement on the ordinary build"""
    if pts is None:
        pts = [random_point(r, ctx.rng) for _ in range(4)]
    for pt in pts:
        pt = {k: v for k, v in pt.items() if k not in r.defs}
        inputs = {k: (int(round(p.eval(dict(pt)))) if k in intvars else float(p.eval(dict(pt)))) for k, p in sub.items()}
        rep = ctx.rep(h, inputs, args)
        if rep is None:
            ctx.violation('%s:crash' % (sigbase or label), h, inputs, args, 'the program ends abnormally'); return True
        for n, sp in ex.items():
            want = sp.eval(dict(pt)); got = rep.get(n); wt = abs(weight(r, n).eval(dict(pt))) if weight else 1.0
            if got is None:
                continue
            tl = tol if not reltol else max(tol, reltol * sum(abs(unfp(v)) for v in sp.d.values()))
            if math.isnan(got) or abs(got - want) * wt > tl * 0.5:
                if any(abs(got - a_[n].eval(dict(pt))) * wt <= tl * 0.5 for a_ in getattr(ctx, 'alts', ()) if n in a_): continue
                ctx.violation('%s:%s' % (sigbase or label, 'nan' if math.isnan(got) else 'value'), h, inputs, args,
                              '%s: output %s = %r where the specification gives %r (%s)' % (label, n, got, want, why))
                return True
    return False
