// The geometry the solver works on: the mesh, stretched along the axes if asked.
#include "bemcommon.h"
#include <deal.II/grid/manifold_lib.h>
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S geo = argv[1]; unsigned deg = atoi(argv[2]); S seq = argv[3]; bool on = S(argv[4]) == "spheroid", man = S(argv[5]) == "spherical";
  ComputationalDomain<3> cd(MPI_COMM_WORLD); BEMProblem<3> b(cd, MPI_COMM_WORLD); { Quiet q; ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm); ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm); }
  b.scalar_fe_order = b.vector_fe_order = deg; b.mapping_type = "FE";
  Mesh m; if (geo == "corner") { face(m, 4, 1, 1); face(m, 1, 2, 1, 1., 1., .8); } else { m.v = {{.3, .2, .1}, {1, .4, .1}, {2.2, .1, -.3}, {.2, 1, .7}, {1.1, 1.2, .5}, {2, -1, .3}}; for (unsigned k = 0; k < 2; ++k) { CellData<2> q; q.vertices[0] = k; q.vertices[1] = k + 1; q.vertices[2] = k + 3; q.vertices[3] = k + 4; q.material_id = k + 1; m.c.push_back(q); } }
  if (geo == "sphere") for (auto &p : m.v) p /= p.norm();
  SphericalManifold<2, 3> sm; m.build(cd.tria); if (geo == "sphere") { cd.tria.set_all_manifold_ids(0); cd.tria.set_manifold(0, sm); } cd.spheroid_bool = on; cd.used_spherical_manifold = man;
  double *ax[3] = {&cd.spheroid_x_axis, &cd.spheroid_y_axis, &cd.spheroid_z_axis}; const double df[3] = {1.5, .75, 2.25}; for (int k = 0; k < 3; ++k) { *ax[k] = df[k]; sym_mark(ax[k], ("a" + I(k)).c_str(), df[k]); }
  { Quiet q; for (char c : seq) { if (c == 'i') b.reinit(); else if (c == 'g') cd.tria.refine_global(1); else { cd.tria.begin_active()->set_refine_flag(); cd.tria.execute_coarsening_and_refinement(); } } }
  unsigned N = b.gradient_dh.n_dofs(); sym_meta("N", I(N).c_str()); sym_meta("size", I(b.map_vector.size()).c_str());
  FE_Q<2, 3> q(deg); FESystem<2, 3> v(q, 3); MappingQ<2, 3> mq(deg); Quadrature<2> sp(v.base_element(0).get_unit_support_points()); AffineConstraints<double> ac; DoFTools::make_hanging_node_constraints(b.gradient_dh, ac); ac.close();
  std::vector<types::global_dof_index> id(v.dofs_per_cell);
  for (auto c = b.gradient_dh.begin_active(); c != b.gradient_dh.end(); ++c) { c->get_dof_indices(id); for (unsigned i = 0; i < id.size(); ++i) { auto k = v.system_to_component_index(i); Point<3> p = mq.transform_unit_to_real_cell(c, sp.point(k.second)); char t[60]; snprintf(t, 60, "%u %.17g", k.first, p[k.first]); sym_meta(("p" + I(id[i])).c_str(), t); } }
  for (unsigned i = 0; i < N; ++i) if (!ac.is_constrained(i)) SYM_OUT(("x" + I(i)).c_str(), b.map_vector[i]);
  // the hanging ones are checked by their constraint
  for (unsigned i = 0; i < N; ++i) if (ac.is_constrained(i)) { double t = b.map_vector[i]; for (auto &e : *ac.get_constraint_entries(i)) t -= e.second * b.map_vector[e.first]; SYM_OUT(("x" + I(i)).c_str(), t); sym_meta(("h" + I(i)).c_str(), "1"); }
  sym_finish();
}
