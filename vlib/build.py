"""Compiles /repo's sources and a harness twice: through the symbolic-execution
pass (clang plugin) and plainly with g++ (the replay build)."""
import hashlib, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PIBEM_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
ENG = os.path.join(ROOT, 'engine')
L = '/usr/lib/x86_64-linux-gnu'
INC = ['-I%s/include' % REPO, '-I' + ENG]
for d in (L + '/openmpi/include', L + '/openmpi/include/openmpi', '/usr/include/petsc', '/usr/include/trilinos',
          '/usr/include/hdf5/openmpi', '/usr/include/scotch', '/usr/include/suitesparse', '/usr/include/opencascade', '/usr/include/slepc'):
    INC += ['-isystem', d]
SYMF = ['-std=c++17', '-DNDEBUG', '-O1', '-gline-tables-only', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-w']
REPF = ['-std=c++17', '-DNDEBUG', '-O1', '-ffp-contract=off', '-w']
LIBS = ['-Wl,--copy-dt-needed-entries', '-l:libdeal.ii.so', '-lmpi', '-lmpi_cxx', '-ltbb']
TRI = ['-ltrilinos_' + x for x in ('epetra', 'aztecoo', 'ifpack', 'ml', 'amesos', 'teuchoscore', 'teuchosparameterlist', 'teuchoscomm', 'teuchosnumerics')]
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1', DEAL_II_NUM_THREADS='1',
           OMPI_MCA_btl='self', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_plm_rsh_agent='', OMPI_MCA_orte_tmpdir_base='/tmp')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault("cwd", BUILD)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode('utf8', 'replace')[-4000:]))
    return r.stdout.decode('utf8', 'replace')


def _sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        h.update(c if isinstance(c, bytes) else c.encode())
    return h.hexdigest()[:24]


def _put(tmp, dst):
    os.replace(tmp, dst)


def engine():
    """plugin, run-time and replay stand-in; rebuilt when their sources change."""
    os.makedirs(BUILD, exist_ok=True)
    src = b''.join(open(os.path.join(ENG, f), 'rb').read() for f in ('pass.cpp', 'runtime.cpp', 'symop.h', 'sym.h', 'replay.cpp'))
    key = _sha(src)
    plug = os.path.join(BUILD, 'symplug-%s.so' % key)
    rt = os.path.join(BUILD, 'runtime-%s.o' % key)
    rp = os.path.join(BUILD, 'replay-%s.o' % key)
    if not (os.path.exists(plug) and os.path.exists(rt) and os.path.exists(rp)):
        cf = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().replace('-fno-exceptions', '').split()
        jobs = [(['clang++', '-std=c++17', '-O2', '-fPIC', '-shared'] + cf + [ENG + '/pass.cpp', '-o'], plug),
                (['clang++', '-std=c++17', '-O2', '-c', ENG + '/runtime.cpp', '-o'], rt),
                (['g++', '-std=c++17', '-O2', '-c', ENG + '/replay.cpp', '-o'], rp)]
        with ThreadPoolExecutor(3) as ex:
            def one(j):
                t = j[1] + '.tmp%d' % os.getpid()
                sh(j[0] + [t]); _put(t, j[1])
            list(ex.map(one, jobs))
    return key, plug, rt, rp


def _compile(src, sym, plugkey, plug, extra):
    """object file for src, cached by the hash of its preprocessed text."""
    cc = (['clang++'] + INC + SYMF) if sym else (['g++'] + INC + REPF)
    pre = subprocess.run(cc + extra + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    if pre.returncode:
        raise BuildError('preprocessing %s failed\n%s' % (src, pre.stderr.decode()[-3000:]))
    key = _sha('2', pre.stdout, plugkey if sym else 'plain', ' '.join(cc + extra), os.path.basename(src))
    obj = os.path.join(BUILD, '%s-%s-%s.o' % (os.path.basename(src).rsplit('.', 1)[0], 's' if sym else 'r', key))
    if not os.path.exists(obj):
        t = obj + '.tmp%d' % os.getpid()
        sh(cc + extra + (['-fpass-plugin=' + plug] if sym else []) + ['-c', src, '-o', t])
        _put(t, obj)
    return obj


def wrapped(objs):
    o = []
    for f in objs:
        for l in subprocess.check_output(['nm', f]).decode().split('\n'):
            p = l.split()
            if len(p) == 3 and p[2].startswith('__wrap_') and p[1] in 'TW': o.append(p[2][7:])
    return o


class Harness:
    """A harness program: `srcs` are /repo/source/<x>.cc, `main` lives in /verif/harness."""

    def __init__(self, main, srcs, libs=(), extra=(), models=(), name=None, plain=(), stubs=()):
        """srcs: /repo sources executed symbolically; plain: /repo sources linked as they are;
        models: instrumented stand-ins (symbolic build only, their __wrap_X replace X);
        stubs: harness files compiled both ways, their __wrap_X replace X in both builds"""
        hd = os.path.join(ROOT, 'harness')
        self.main = os.path.join(hd, main)
        self.srcs = [os.path.join(REPO, 'source', s + '.cc') for s in srcs]
        self.plain = [os.path.join(REPO, 'source', s + '.cc') for s in plain]
        self.models = [os.path.join(hd, m) for m in models]
        self.stubs = [os.path.join(hd, m) for m in stubs]
        self.libs, self.extra = list(libs), list(extra) + ['-I' + hd]
        self.name = name or os.path.basename(main).rsplit('.', 1)[0]
        self.build_s = 0.0

    def build(self, pool=8):
        t0 = time.time()
        key, plug, rt, rp = engine()
        self.key = key
        acc = ['-fno-access-control']
        order = lambda f: -os.path.getsize(f)
        with ThreadPoolExecutor(pool) as ex:
            js = {}
            for f in sorted(self.srcs, key=order): js['s', f] = ex.submit(_compile, f, True, key, plug, self.extra + ['-DSYM_BUILD'])
            for f in [self.main] + self.stubs + self.models: js['s', f] = ex.submit(_compile, f, True, key, plug, self.extra + acc + ['-DSYM_BUILD'])
            for f in sorted(self.srcs + self.plain, key=order): js['r', f] = ex.submit(_compile, f, False, key, plug, self.extra)
            for f in [self.main] + self.stubs: js['r', f] = ex.submit(_compile, f, False, key, plug, self.extra + acc)
            so = [js['s', f].result() for f in [self.main] + self.stubs + self.models + self.srcs] + [js['r', f].result() for f in self.plain]
            ro = [js['r', f].result() for f in [self.main] + self.stubs + self.srcs + self.plain]
            mo = [js['s', f].result() for f in self.models]; st = [js['s', f].result() for f in self.stubs]
        wr = ['-Wl,--wrap=' + x for x in wrapped(st)]
        w = ['-Wl,--wrap=' + x for x in wrapped(mo)] + wr
        self.sym = os.path.join(BUILD, '%s-sym-%s' % (self.name, _sha(' '.join(so + w + self.libs), key)))
        self.rep = os.path.join(BUILD, '%s-rep-%s' % (self.name, _sha(' '.join(ro + wr + self.libs), key)))
        if not os.path.exists(self.sym):
            t = self.sym + '.tmp%d' % os.getpid()
            sh(['clang++', '-no-pie'] + so + [rt] + w + self.libs + LIBS + ['-o', t]); _put(t, self.sym)
        if not os.path.exists(self.rep):
            t = self.rep + '.tmp%d' % os.getpid()
            sh(['g++', '-no-pie'] + ro + [rp] + wr + self.libs + LIBS + ['-o', t]); _put(t, self.rep)
        self.build_s = time.time() - t0
        return self


def run(exe, out, inputs=None, args=(), timeout=600, cwd=None):
    """one run; returns (returncode, stderr tail)."""
    env = dict(ENV, SYM_OUT=out)
    if inputs is not None:
        with open(out + '.in', 'w') as f:
            for k, v in inputs.items():
                f.write('%s %s\n' % (k, v if isinstance(v, str) else (repr(float(v)) if isinstance(v, float) else str(v))))
        env['SYM_INPUT'] = out + '.in'
    try:
        r = subprocess.run([exe] + [str(a) for a in args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd or os.path.dirname(out))
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return r.returncode, (r.stdout.decode('utf8', 'replace')[-1500:] + r.stderr.decode('utf8', 'replace')[-1500:])


def read_replay(out):
    d = {}
    for l in open(out + '.replay'):
        k, v = l.rsplit(' ', 1)
        d[k] = float(v)
    return d


if __name__ == '__main__':
    print(engine())
