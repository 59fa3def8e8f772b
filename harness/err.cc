// Errors and result files: what is reported of a solution, and what is written.
#include "bemcommon.h"
#include "boundary_conditions.h"
#include "fnstub.h"
#include "bcstub.h"
#include "errstub.h"
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S geo = argv[1]; unsigned deg = atoi(argv[2]); S what = argv[3]; bool twice = S(argv[4]) == "twice";
  ComputationalDomain<3> cd(MPI_COMM_WORLD); BEMProblem<3> b(cd, MPI_COMM_WORLD); BoundaryConditions<3> bc(cd, b, MPI_COMM_WORLD); { Quiet q; ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm); ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm); }
  fns.name[&bc.wind] = "wind"; fns.name[&bc.potential] = "pot"; b.scalar_fe_order = b.vector_fe_order = deg;
  Mesh m; if (geo == "edge") { face(m, 4, 1, 1); face(m, 1, 2, 1); } else { m.v = {{.3, .2, .1}, {1, .4, .1}, {2.2, .1, -.3}, {.2, 1, .7}, {1.1, 1.2, .5}, {2, -1, .3}}; for (unsigned k = 0; k < 2; ++k) { CellData<2> q; q.vertices[0] = k; q.vertices[1] = k + 1; q.vertices[2] = k + 3; q.vertices[3] = k + 4; q.material_id = k + 1; m.c.push_back(q); } }
  m.build(cd.tria); { Quiet q; b.reinit(); }
  unsigned n = b.dh.n_dofs(); std::vector<Point<3>> sp(n), gp(b.gradient_dh.n_dofs()); DoFTools::map_dofs_to_support_points(*b.mapping, b.dh, sp); DoFTools::map_dofs_to_support_points(*b.mapping, b.gradient_dh, gp);
  for (unsigned i = 0; i < n; ++i) { S t = fn_name(&bc.wind, sp[i], 0); sym_meta(("at" + I(i)).c_str(), t.substr(5, t.size() - 7).c_str()); }
  sym_meta("n", I(n).c_str()); sym_meta("cells", I(cd.tria.n_active_cells()).c_str());
  std::vector<types::global_dof_index> s(b.fe->dofs_per_cell), g(b.gradient_fe->dofs_per_cell); auto w = b.gradient_dh.begin_active();
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++w) { c->get_dof_indices(s); w->get_dof_indices(g);
    for (auto i : s) { S u; for (unsigned k = 0; k < 3; ++k) for (unsigned j = 0; j < g.size(); ++j) if (b.gradient_fe->system_to_component_index(j).first == k && gp[g[j]].distance(sp[i]) < 1e-9) { u += I(g[j]) + ","; break; } sym_meta(("g" + I(i)).c_str(), u.c_str()); } }
  bc.phi.reinit(b.this_cpu_set, MPI_COMM_WORLD); bc.dphi_dn.reinit(b.this_cpu_set, MPI_COMM_WORLD); markv(bc.phi, "P"); markv(bc.dphi_dn, "Q"); { Quiet q; b.compute_normals(); }
  b.alpha.reinit(b.this_cpu_set, MPI_COMM_WORLD); markv(b.alpha, "A"); b.vector_surface_gradients_solution.reinit(b.vector_this_cpu_set, MPI_COMM_WORLD); markv(b.vector_surface_gradients_solution, "S");
  if (what == "output") { b.vector_gradients_solution.reinit(b.vector_this_cpu_set, MPI_COMM_WORLD); markv(b.vector_gradients_solution, "G"); }
  for (int k = 0; k < 1 + twice; ++k) { Quiet q; if (k) { markv(bc.phi, "R"); markv(bc.dphi_dn, "T"); markv(b.vector_normals_solution, "n"); } erp.clear(); erp.on = true; if (what == "errors") bc.compute_errors(); else bc.output_results("res"); erp.on = false; }
  sym_meta("gradients", I(bcp.gradients).c_str());
  for (unsigned i = 0; i < bcp.gphi.size(); ++i) { SYM_OUT(("gphi" + I(i)).c_str(), bcp.gphi[i]); SYM_OUT(("gdphi" + I(i)).c_str(), bcp.gdphi[i]); }
  for (auto &p : erp.printed) SYM_OUT(("say:" + p.first).c_str(), p.second);
  for (auto &p : erp.counts) SYM_OUT(("count:" + p.first).c_str(), p.second);
  for (auto &p : erp.data) for (unsigned i = 0; i < p.second.size(); ++i) SYM_OUT(("data:" + p.first + ":" + I(i)).c_str(), p.second[i]);
  for (auto &p : erp.integrals) { for (unsigned i = 0; i < p.second.size(); ++i) SYM_OUT(("int:" + p.first + ":" + I(i)).c_str(), p.second[i]); }
  std::vector<std::pair<S, std::vector<S>>> want; if (what == "errors") want = {{"scalar_error.vtu", {"phi_error", "dphi_dn_error"}}, {"vector_error.vtu", {"phi_gradient_error"}}}; else want = {{"res_scalar_results.vtu", {"phi", "dphi_dn", "alpha"}}, {"res_vector_results.vtu", {"phi_gradient", "phi_surf_gradient", "normals_at_nodes"}}};
  for (auto &f : want) { std::ifstream in(f.first); S t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); S kind = f.first.find("vector") != S::npos ? "vector" : "scalar";
    for (auto &x : f.second) { SYM_OUT(("written:" + x).c_str(), t.find("Name=\"" + x + "\"") != S::npos); SYM_OUT(("kind:" + x).c_str(), erp.files[x] == kind); } }
  sym_finish();
}
