import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from named import *
SRCS = ['multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block']


def body(c):
    h = Harness('values.cc', SRCS).build()
    p = 6 if c.thorough else 4
    c.bounds += ['expansion orders up to %d, table orders up to 3' % (p + 1), 'coefficients, centres and table entries: any value in [-2,2]', 'raw coefficients given to an empty expansion: size 1e-9 to 2 (smaller ones may count as zero)', 'the copy/assign/modify sequences of the harness']
    c.outside += ['orders above the stated ones', 'other sequences of copies']
    for q in ([1, 2, p] if c.thorough else [2, p]):
        auto(c, h, ['mult', q], 'multipole expansion order %d' % q)
        auto(c, h, ['local', q], 'local expansion order %d' % q)
        auto(c, h, ['addraw', q], 'raw coefficients order %d' % q)
    auto(c, h, ['rawfresh', 2], 'raw coefficients given to an empty expansion', lo=Fraction(1, 10 ** 9))
    for q in (0, 1, 2, 3):
        auto(c, h, ['table', q], 'table order %d' % q)


if __name__ == '__main__':
    main('C07', body)
