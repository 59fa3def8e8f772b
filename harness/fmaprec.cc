// The matrix given to the incomplete factorisation by the fast method.
#include "fmamesh.h"
#include "fevstub.h"
#include "formal.h"
#include "bem_fma.h"
#include "precstub.h"
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S kind = argv[1]; unsigned levels = atoi(argv[2]), most = atoi(argv[3]), qo = atoi(argv[4]), so = atoi(argv[5]), degree = atoi(argv[6]); S when = argv[7];
  Triangulation<2, 3> tria; mesh(kind, tria); FE_Q<2, 3> fe(degree); MappingQ<2, 3> map(1); DoFHandler<2, 3> dh(tria); dh.distribute_dofs(fe); unsigned n = dh.n_dofs();
  std::vector<Point<3>> sp(n); DoFTools::map_dofs_to_support_points<2, 3>(map, dh, sp); auto dbl = doubles(sp);
  IndexSet all(n); all.add_range(0, n); TV dir(all, MPI_COMM_WORLD), other(all, MPI_COMM_WORLD), alpha(all, MPI_COMM_WORLD); for (unsigned i = 0; i < n; ++i) { if (i % 3 == 0) dir(i) = 1; if (i % 2) other(i) = 1; alpha(i) = .5 * i; } dir.compress(VectorOperation::insert); other.compress(VectorOperation::insert); alpha.compress(VectorOperation::insert);
  auto constr = [&](unsigned s, bool sym) { AffineConstraints<double> c; for (unsigned i = s; i < n; i += 5) { c.add_line(i); c.add_entry(i, (i + 1) % n, 1.); double w = .25; if (sym) { sym_mark(&w, ("k" + I(i)).c_str(), dflt(i, 3)); } if (i % 2) c.add_entry(i, (i + 3) % n, w); c.set_inhomogeneity(i, .1 * i); } c.close(); return c; };
  std::ostringstream quiet; auto *old = std::cout.rdbuf(quiet.rdbuf());
  BEMFMA<3> f(MPI_COMM_WORLD); f.num_octree_levels = levels; f.max_num_nodes_per_block = most; f.trunc_order = 6; f.tbb_granularity = 3;
  if (when == "again") { f.init_fma(dh, dbl, other, map, qo, so); f.generate_octree_blocking(); f.direct_integrals(); auto c = constr(1, false); f.FMA_preconditioner(alpha, c); }
  f.init_fma(dh, dbl, dir, map, qo, so);
  rules.on = true; rules.normals = false;
  f.generate_octree_blocking(); f.direct_integrals(); rules.on = false;
  auto c = constr(2, true); if (when == "again") { auto c0 = constr(3, false); f.FMA_preconditioner(alpha, c0); }
  markv(alpha, "a"); prec.row.clear(); prec.which = nullptr;
  const void *given = &f.FMA_preconditioner(alpha, c);
  std::cout.rdbuf(old);
  sym_meta("used", given == prec.which ? "1" : "0"); sym_meta("n", I(n).c_str()); unsigned far = 0, near = 0;
  for (unsigned i = 0; i < n && i < prec.row.size(); ++i) { bool on = c.is_constrained(i); std::map<unsigned, double> e; if (on) for (auto &x : *c.get_constraint_entries(i)) e[x.first] = x.second;
    for (unsigned j = 0; j < n; ++j) { double want = i == j && on, v = prec.row[i].count(j) ? prec.row[i][j] : 0.;
      if (on) { if (e.count(j)) want -= e[j]; }
      else { want = dir(j) == 1 ? -f.prec_dirichlet_matrix.el(i, j) : f.prec_neumann_matrix.el(i, j); if (i == j && dir(i) == 0) want += raw(alpha)[i]; if (!prec.row[i].count(j)) ++far; else ++near; }
      v = v - want; SYM_OUT(("P" + I(i) + "_" + I(j)).c_str(), v); } }
  sym_meta("far", I(far).c_str()); sym_meta("near", I(near).c_str());
  sym_finish();
}
