// Boundary data: which datum each node gets, what the solver is given, what is kept.
#include "bemcommon.h"
#include "boundary_conditions.h"
#include "fnstub.h"
#include "bcstub.h"
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S geo = argv[1]; unsigned nd = atoi(argv[2]), nn = atoi(argv[3]), deg = atoi(argv[4]); bool twice = S(argv[5]) == "twice";
  ComputationalDomain<3> cd(MPI_COMM_WORLD); BEMProblem<3> b(cd, MPI_COMM_WORLD); BoundaryConditions<3> bc(cd, b, MPI_COMM_WORLD); { Quiet q; ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm); ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm); }
  fns.name[&bc.wind] = "wind"; fns.name[&bc.potential] = "pot"; b.scalar_fe_order = b.vector_fe_order = deg;
  Mesh m; if (geo == "edge") { face(m, 4, 1, 1); face(m, 1, 2, 1); } else { m.v = {{.3, .2, .1}, {1, .4, .1}, {2.2, .1, -.3}, {.2, 1, .7}, {1.1, 1.2, .5}, {2, -1, .3}}; for (unsigned k = 0; k < 2; ++k) { CellData<2> q; q.vertices[0] = k; q.vertices[1] = k + 1; q.vertices[2] = k + 3; q.vertices[3] = k + 4; q.material_id = k + 1; m.c.push_back(q); } }
  m.build(cd.tria); bcp.mat = {1, 2}; bcp.materials = true;
  cd.dirichlet_boundary_ids.clear(); cd.neumann_boundary_ids.clear();
  for (unsigned k = 0; k < nd; ++k) cd.dirichlet_boundary_ids.push_back(sym_uint32(("did" + I(k)).c_str(), 1 + k));
  for (unsigned k = 0; k < nn; ++k) cd.neumann_boundary_ids.push_back(sym_uint32(("nid" + I(k)).c_str(), 2 + k));
  { Quiet q; b.reinit(); }
  unsigned n = b.dh.n_dofs(); std::vector<Point<3>> sp(n), gp(b.gradient_dh.n_dofs()); DoFTools::map_dofs_to_support_points(*b.mapping, b.dh, sp); DoFTools::map_dofs_to_support_points(*b.mapping, b.gradient_dh, gp);
  for (unsigned i = 0; i < n; ++i) { S t = fn_name(&bc.wind, sp[i], 0); sym_meta(("at" + I(i)).c_str(), t.substr(5, t.size() - 7).c_str()); }
  sym_meta("n", I(n).c_str());
  std::vector<types::global_dof_index> s(b.fe->dofs_per_cell), g(b.gradient_fe->dofs_per_cell); auto w = b.gradient_dh.begin_active();
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++w) { c->get_dof_indices(s); w->get_dof_indices(g); S t; for (auto i : s) t += I(i) + ","; sym_meta(("d" + I(c->active_cell_index())).c_str(), t.c_str());
    for (auto i : s) { S u; for (unsigned k = 0; k < 3; ++k) for (unsigned j = 0; j < g.size(); ++j) if (b.gradient_fe->system_to_component_index(j).first == k && gp[g[j]].distance(sp[i]) < 1e-9) { u += I(g[j]) + ","; break; } sym_meta(("g" + I(i)).c_str(), u.c_str()); } }
  { Quiet q; bc.solve_problem(); if (twice) bc.solve_problem(); }
  sym_meta("first", I(*b.this_cpu_set.begin()).c_str()); sym_meta("solves", I(bcp.solves).c_str()); sym_meta("normals", I(bcp.normals).c_str());
  for (unsigned i = 0; i < n; ++i) { SYM_OUT(("rhs" + I(i)).c_str(), bcp.rhs[i]); SYM_OUT(("phi" + I(i)).c_str(), bcp.phi[i]); SYM_OUT(("dphi" + I(i)).c_str(), bcp.dphi[i]); }
  outv("D", b.dirichlet_nodes); outv("N", b.neumann_nodes); outv("P", bc.get_phi()); outv("Q", bc.get_dphi_dn());
  SYM_OUT("have", bc.have_dirichlet_bc ? 1. : 0.);
  sym_finish();
}
