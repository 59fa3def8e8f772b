#include "bem_fma.h"
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/tria.h>
#include <cstdio>
#include <iostream>
using namespace dealii;
typedef TrilinosWrappers::MPI::Vector TV;
struct Patches { std::vector<Point<3>> v; std::vector<CellData<2>> c;
  void patch(Point<3> o, Point<3> a, Point<3> b, unsigned n) { unsigned base = v.size();
    for (unsigned j = 0; j <= n; ++j) for (unsigned i = 0; i <= n; ++i) v.push_back(o + Tensor<1, 3>((double(i) / n) * a) + Tensor<1, 3>((double(j) / n) * b));
    for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < n; ++i) { CellData<2> q; q.vertices[0] = base + j * (n + 1) + i; q.vertices[1] = q.vertices[0] + 1; q.vertices[2] = q.vertices[0] + n + 1; q.vertices[3] = q.vertices[2] + 1; q.material_id = 1; c.push_back(q); } } };
// the products with given densities, with an octree of the given depth; depth 1: everything by direct integration
struct Fast { Triangulation<2, 3> t; FE_Q<2, 3> fe; MappingQ<2, 3> map; DoFHandler<2, 3> dh; std::vector<Point<3>> sp; std::vector<std::set<types::global_dof_index>> dbl; IndexSet all; TV dir;
  Fast(const Patches &p, unsigned degree) : fe(degree), map(1), dh(t) { std::cout.rdbuf(nullptr); t.create_triangulation(p.v, p.c, SubCellData()); dh.distribute_dofs(fe); unsigned n = dh.n_dofs(); sp.resize(n); DoFTools::map_dofs_to_support_points<2, 3>(map, dh, sp);
    dbl.resize(n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (sp[i].distance(sp[j]) < 1e-10) dbl[i].insert(j); all.set_size(n); all.add_range(0, n); dir.reinit(all, MPI_COMM_WORLD); dir = 1; }
  void run(unsigned levels, unsigned most, unsigned q, const TV &x, const TV &y, TV &N, TV &D) { BEMFMA<3> f(MPI_COMM_WORLD); f.num_octree_levels = levels; f.max_num_nodes_per_block = most; f.trunc_order = 9; f.tbb_granularity = 10;
    f.init_fma(dh, dbl, dir, map, q, q); f.generate_octree_blocking(); f.direct_integrals(); f.multipole_integrals(); f.generate_multipole_expansions(x, y); f.multipole_matr_vect_products(x, y, N, D); }
  double worst(unsigned levels, unsigned most, unsigned q) { unsigned n = dh.n_dofs(); TV x(all, MPI_COMM_WORLD), y(x), N(x), D(x), N1(x), D1(x); for (unsigned i = 0; i < n; ++i) { x(i) = std::sin(1. + i); y(i) = std::cos(2. * i); }
    run(1, 1000000, q, x, y, N1, D1); run(levels, most, q, x, y, N, D); N -= N1; D -= D1; double e = std::max(N.linfty_norm() / N1.linfty_norm(), D.linfty_norm() / D1.linfty_norm()); fprintf(stderr, "%u levels: %g\n", levels, e); return e; } };
