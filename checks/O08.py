import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib'))
from named import *
SRCS = ['multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'ass_leg_function', 'octree_block']


def body(c):
    h = Harness('values.cc', SRCS).build()
    c.bounds += ['one block with 4 nodes, 3 cells of 3 quadrature points, 8 children and lists of 2, 3 and 4 levels; every id in [0,2^30] and every coordinate in [-2,2]', 'copy, content copy, and modification of either side afterwards']
    c.outside += ['other list lengths']
    auto(c, h, ['block'], 'octree block record')


if __name__ == '__main__':
    main('O08', body)
