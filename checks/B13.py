import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from bem import *


def body(c):
    h = harness()
    c.bounds += ['8 unknowns on two unconnected quadrilaterals; every matrix entry and every previous value of alpha in [-2,2]; direct matrices and the fast product (near and far part arbitrary)']
    c.outside += ['the fast product itself, replaced by arbitrary near and far matrices (other properties)', 'more than one process']
    for meth in ('direct', 'fma'):
        setup, st, p = inputs(c, h, ['alpha', meth, 'mixed'])
        def spec(r, d):
            n = int(d.meta['n']) if 'n' in d.meta else 8; o = {}; s = st['sub']
            for i in range(n):
                t = r.const(0)
                for j in range(n):
                    for f in (['N'] if meth == 'direct' else ['Nn', 'Nf']): t = t - s['%s%d_%d' % (f, i, j)]
                o['alpha%d' % i] = t; o['second%d' % i] = t
            return o
        explore(c, h, ['alpha', meth, 'mixed'], setup, spec, 1e-9, label='alpha ' + meth)


if __name__ == '__main__':
    main('B13', body)
