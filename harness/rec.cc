// Recovery of normals, gradients and surface gradients: which system is solved, what is returned.
#include "bemprob.h"
#include "fevstub.h"
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S what = argv[1], geo = argv[2]; unsigned ds = atoi(argv[3]), dv = atoi(argv[4]), qo = atoi(argv[5]); bool twice = S(argv[6]) == "twice";
  ComputationalDomain<3> cd(MPI_COMM_WORLD); BEMProblem<3> b(cd, MPI_COMM_WORLD); { Quiet q; ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm); ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm); }
  b.solution_method = "FMA"; b.scalar_fe_order = ds; b.vector_fe_order = dv; b.quadrature = std::make_shared<QGauss<2>>(qo); b.quadrature_order = qo;
  Mesh m; if (geo == "corner") { face(m, 4, 1, 1); face(m, 1, 2, 1, 1., 1., .8); } else { std::vector<Point<3>> v = {{0, 0, 0}, {1, 0, .1}, {2.2, .1, 0}, {0, 1, 0}, {1.1, 1.2, 0}, {2, 1, .3}}; m.v = v; for (unsigned k = 0; k < 2; ++k) { CellData<2> q; q.vertices[0] = k; q.vertices[1] = k + 1; q.vertices[2] = k + 3; q.vertices[3] = k + 4; q.material_id = k + 1; m.c.push_back(q); } }
  m.build(cd.tria); if (geo == "hanging") { cd.tria.begin_active()->set_refine_flag(); cd.tria.execute_coarsening_and_refinement(); }
  cd.dirichlet_boundary_ids = {1}; { Quiet q; b.reinit(); }
  unsigned n = b.dh.n_dofs(), N = b.gradient_dh.n_dofs(), dpc = b.fe->dofs_per_cell, vpc = b.gradient_fe->dofs_per_cell;
  TV f(b.this_cpu_set, MPI_COMM_WORLD), g(b.this_cpu_set, MPI_COMM_WORLD); for (unsigned i = 0; i < n; ++i) { f(i) = 1. + i; g(i) = 3. - i; }
  if (twice) { Quiet q; b.compute_normals(); b.compute_gradients(f, g); b.compute_surface_gradients(g); }
  markv(f, "f"); markv(g, "g"); rules.on = true; sym_meta("rule", I(rule_id(*b.quadrature)).c_str());
  { Quiet q; if (what == "normals") b.compute_normals(); else if (what == "gradients") b.compute_gradients(f, g); else b.compute_surface_gradients(f); }
  rules.on = false;
  TV &G = what == "normals" ? b.vector_normals_solution : what == "gradients" ? b.vector_gradients_solution : b.vector_surface_gradients_solution;
  outv("f", f); outv("g", g); outv("G", G);
  AffineConstraints<double> ac; DoFTools::make_hanging_node_constraints(b.gradient_dh, ac); ac.close(); unsigned hanging = 0;
  for (unsigned i = 0; i < N; ++i) { S s; if (ac.is_constrained(i)) { ++hanging; for (auto &e : *ac.get_constraint_entries(i)) { char t[80]; snprintf(t, 80, "%u:%.17g,", e.first, e.second); s += t; } sym_meta(("h" + I(i)).c_str(), s.c_str()); } else SYM_OUT(("residual" + I(i)).c_str(), probe.residual[i]); }
  sym_meta("hanging", I(hanging).c_str()); sym_meta("solves", I(probe.solves).c_str()); sym_meta("n", I(n).c_str()); sym_meta("N", I(N).c_str()); sym_meta("cells", I(cd.tria.n_active_cells()).c_str()); sym_meta("points", I(b.quadrature->size()).c_str());
  auto cv = b.gradient_dh.begin_active();
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++cv) { std::vector<types::global_dof_index> s(dpc), v(vpc); c->get_dof_indices(s); cv->get_dof_indices(v); S t, u; for (auto i : s) t += I(i) + ","; for (auto i : v) u += I(i) + ","; S k = I(c->active_cell_index()); sym_meta(("d" + k).c_str(), t.c_str()); sym_meta(("e" + k).c_str(), u.c_str());
    FEValues<2, 3> fv(*b.mapping, *b.fe, *b.quadrature, update_gradients); fv.reinit(c);
    for (unsigned q = 0; q < b.quadrature->size(); ++q) { S r; char w[100]; for (unsigned j = 0; j < dpc; ++j) { Tensor<1, 3> d = fv.shape_grad(j, q); snprintf(w, 100, "%.17g,%.17g,%.17g,", d[0], d[1], d[2]); r += w; } sym_meta(("t" + k + "_" + I(q)).c_str(), r.c_str()); } }
  for (unsigned i = 0; i < vpc; ++i) { sym_meta(("comp" + I(i)).c_str(), I(b.gradient_fe->system_to_component_index(i).first).c_str()); S r; char w[60]; for (unsigned q = 0; q < b.quadrature->size(); ++q) { snprintf(w, 60, "%.17g,", b.gradient_fe->shape_value(i, b.quadrature->point(q))); r += w; } sym_meta(("v" + I(i)).c_str(), r.c_str()); }
  for (unsigned i = 0; i < dpc; ++i) { S r; char w[60]; for (unsigned q = 0; q < b.quadrature->size(); ++q) { snprintf(w, 60, "%.17g,", b.fe->shape_value(i, b.quadrature->point(q))); r += w; } sym_meta(("s" + I(i)).c_str(), r.c_str()); }
  sym_finish();
}
