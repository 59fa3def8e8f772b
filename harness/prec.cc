// The matrix given to the incomplete factorisation by a direct solve.
#include "bemprob.h"
#include "precstub.h"
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S pat = argv[1]; bool again = S(argv[2]) == "again", cont = S(argv[3]) == "continuous";
  int order[3] = {1, 3, 5}; Mesh m; std::vector<unsigned> dir;
  for (unsigned k = 0; k < pat.size(); ++k) { face(m, order[k], k + 1); if (pat[k] == 'D') dir.push_back(k + 1); }
  if (dir.empty()) dir.push_back(99);
  Prob p(m, dir, false); BEMProblem<3> &b = p.b; unsigned n = b.dh.n_dofs(); b.continuos_gradient = cont;
  std::vector<Point<3>> sp(n); DoFTools::map_dofs_to_support_points<2, 3>(*b.mapping, b.dh, sp);
  for (unsigned i = 0; i < n; ++i) sym_meta(("p" + I(i)).c_str(), (I(std::lround(sp[i][0])) + "," + I(std::lround(sp[i][1])) + "," + I(std::lround(sp[i][2]))).c_str());
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c) { std::vector<types::global_dof_index> s(b.fe->dofs_per_cell); c->get_dof_indices(s); for (auto i : s) sym_meta(("m" + I(i)).c_str(), I(c->material_id()).c_str()); }
  sym_meta("n", I(n).c_str());
  { Quiet q; b.compute_normals(); }
  TV t(b.this_cpu_set, MPI_COMM_WORLD), phi(b.this_cpu_set, MPI_COMM_WORLD), dphi(b.this_cpu_set, MPI_COMM_WORLD);
  if (again) { Quiet q; TV x(t), u(t), v(t); for (unsigned i = 0; i < n; ++i) x(i) = .1 * i; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { b.neumann_matrix.set(i, j, .1 * i - .2 * j + 1); b.dirichlet_matrix.set(i, j, .3 * j + .1 * i); } b.solve_system(u, v, x); b.sol = 0; }
  marks(p, false); markv(t, "t"); markv(b.alpha, "a");
  prec.row.clear(); prec.count = prec.used = 0;
  { Quiet q; b.solve_system(phi, dphi, t); }
  sym_meta("used", I(prec.used).c_str());
  for (unsigned i = 0; i < n && i < prec.row.size(); ++i) { bool on = b.constraints.is_constrained(i); sym_meta(("c" + I(i)).c_str(), on ? "1" : "0"); std::map<unsigned, double> e; if (on) for (auto &x : *b.constraints.get_constraint_entries(i)) e[x.first] = x.second;
    for (auto &x : prec.row[i]) { double v = x.second; if (on && x.first != i) v = v * (v + (e.count(x.first) ? e[x.first] : 0.)); SYM_OUT(("P" + I(i) + "_" + I(x.first)).c_str(), v); } }
  sym_finish();
}
