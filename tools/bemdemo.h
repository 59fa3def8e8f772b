#include "bem_problem.h"
#include "bem_problem_access.h"
#include <deal.II/base/multithread_info.h>
#include <iostream>
#include <cstdio>
using namespace dealii;
typedef TrilinosWrappers::MPI::Vector TV;
// faces of a unit cube, unconnected to each other, n x n cells each
static void face(std::vector<Point<3>> &v, std::vector<CellData<2>> &cs, int f, unsigned mat, unsigned n) {
  int ax = f / 2, up = f % 2, a = (ax + 1) % 3, b = (ax + 2) % 3; if (!up) std::swap(a, b); unsigned base = v.size();
  for (unsigned j = 0; j <= n; ++j) for (unsigned i = 0; i <= n; ++i) { Point<3> p; p[ax] = up; p[a] = double(i) / n; p[b] = double(j) / n; v.push_back(p); }
  for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < n; ++i) { CellData<2> q; q.vertices[0] = base + j * (n + 1) + i; q.vertices[1] = q.vertices[0] + 1; q.vertices[2] = q.vertices[0] + n + 1; q.vertices[3] = q.vertices[2] + 1; q.material_id = mat; cs.push_back(q); } }
struct Prob { ComputationalDomain<3> cd; BEMProblem<3> b;
  Prob(unsigned nf, unsigned n, std::vector<unsigned> dir, bool fma, const int *order = nullptr) : cd(MPI_COMM_WORLD), b(cd, MPI_COMM_WORLD) {
    std::cout.rdbuf(nullptr);
    ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm); ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm);
    b.solution_method = fma ? "FMA" : "Direct";
    std::vector<Point<3>> v; std::vector<CellData<2>> cs; for (unsigned f = 0; f < nf; ++f) face(v, cs, order ? order[f] : f, f + 1, n);
    cd.tria.create_triangulation(v, cs, SubCellData()); cd.dirichlet_boundary_ids = dir; b.reinit(); }
  TV vec() const { return TV(b.this_cpu_set, MPI_COMM_WORLD); }
  void assemble() { if (b.solution_method == "Direct") b.assemble_system(); else { b.fma.generate_octree_blocking(); b.fma.direct_integrals(); b.fma.multipole_integrals(); } } };
static double diff(const TV &a, const TV &b) { TV c(a); c -= b; return c.linfty_norm(); }
