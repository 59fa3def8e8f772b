// Constraints of double nodes and the complete assembly of one solve.
#include "bemprob.h"
// index of component c of the vector unknown at each scalar unknown, found through the cells
static void locate(BEMProblem<3> &b) {
  std::vector<types::global_dof_index> s(b.fe->dofs_per_cell), v(b.gradient_fe->dofs_per_cell);
  auto cv = b.gradient_dh.begin_active();
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++cv) { c->get_dof_indices(s); cv->get_dof_indices(v);
    for (unsigned i = 0; i < s.size(); ++i) for (int k = 0; k < 3; ++k) probe.where[s[i]][k] = v[b.gradient_fe->component_to_system_index(k, i)]; } }
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S mode = argv[1], pat = argv[2]; bool fma = S(argv[3]) == "fma", cont = S(argv[4]) == "continuous";
  int order[3] = {1, 3, 5}; Mesh m; std::vector<unsigned> dir;
  for (unsigned k = 0; k < pat.size(); ++k) { face(m, order[k], k + 1); if (pat[k] == 'D') dir.push_back(k + 1); }
  if (dir.empty()) dir.push_back(99);
  Prob p(m, dir, fma); BEMProblem<3> &b = p.b; unsigned n = b.dh.n_dofs(); b.continuos_gradient = cont;
  if (mode == "solve" && S(argv[5]) == "somewhere") b.have_dirichlet_bc = true;
  std::vector<Point<3>> sp(n); DoFTools::map_dofs_to_support_points<2, 3>(*b.mapping, b.dh, sp);
  for (unsigned i = 0; i < n; ++i) sym_meta(("p" + I(i)).c_str(), (I(std::lround(sp[i][0])) + "," + I(std::lround(sp[i][1])) + "," + I(std::lround(sp[i][2]))).c_str());
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c) { std::vector<types::global_dof_index> s(b.fe->dofs_per_cell); c->get_dof_indices(s); for (auto i : s) sym_meta(("m" + I(i)).c_str(), I(c->material_id()).c_str()); }
  sym_meta("n", I(n).c_str());
  locate(b); b.vector_normals_solution.reinit(b.vector_this_cpu_set, MPI_COMM_WORLD);
  for (auto &k : probe.where) for (int c = 0; c < 3; ++c) sym_mark(raw(b.vector_normals_solution) + k.second[c], ("v" + I(k.first) + "_" + I(c)).c_str(), dflt(k.first, 200 + c));
  TV t(b.this_cpu_set, MPI_COMM_WORLD); markv(t, "t");
  if (mode == "constraints") {
    { Quiet q; b.compute_constraints(b.constr_cpu_set, b.constraints, t); }
    if (S(argv[5]) == "twice") { Quiet q; b.compute_constraints(b.constr_cpu_set, b.constraints, t); }
    for (unsigned i = 0; i < n; ++i) { bool on = b.constraints.is_constrained(i); sym_meta(("c" + I(i)).c_str(), on ? "1" : "0"); SYM_OUTI(("constrained" + I(i)).c_str(), on ? 1 : 0);
      double inh = on ? b.constraints.get_inhomogeneity(i) : 0.; SYM_OUT(("value" + I(i)).c_str(), inh);
      std::map<unsigned, double> e; if (on) for (auto &x : *b.constraints.get_constraint_entries(i)) e[x.first] = x.second;
      for (auto &x : e) if (!b.constr_cpu_set.is_element(x.first)) abort();
      for (unsigned j = 0; j < n; ++j) { double x = e.count(j) ? e[j] : 0.; SYM_OUT(("entry" + I(i) + "_" + I(j)).c_str(), x); } }
    sym_meta("gradients", I(probe.gradients).c_str()); sym_finish(); return 0; }
  marks(p, fma); TV phi(b.this_cpu_set, MPI_COMM_WORLD), dphi(b.this_cpu_set, MPI_COMM_WORLD); markv(phi, "f"); markv(dphi, "g"); markv(b.alpha, "a"); markv(b.system_rhs, "r"); markv(b.sol, "o");
  { Quiet q; b.solve_system(phi, dphi, t); if (S(argv[5]) == "twice") { b.sol = 0; probe.residual.clear(); b.solve_system(phi, dphi, t); } }
  outv("phi", phi); outv("dphi", dphi);
  for (unsigned i = 0; i < n; ++i) SYM_OUT(("residual" + I(i)).c_str(), probe.residual[i]);
  sym_meta("solves", I(probe.solves).c_str()); sym_meta("gradients", I(probe.gradients).c_str());
  sym_finish();
}
