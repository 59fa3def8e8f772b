// Assembly of the collocation matrices, in the plane and in space.
#include "bemprob.h"
#include "fevstub.h"
template <int dim> struct Any { ComputationalDomain<dim> cd; BEMProblem<dim> b; Any() : cd(MPI_COMM_WORLD), b(cd, MPI_COMM_WORLD) { Quiet q; ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm); ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm); b.solution_method = "Direct"; } };
static void geometry(Triangulation<2, 3> &t) { Mesh m; face(m, 4, 1, 2); face(m, 1, 2, 1, 1., 1., .8); m.build(t); }
static void geometry(Triangulation<1, 2> &t) { std::vector<Point<2>> v; std::vector<CellData<1>> c; double p[4][2] = {{0, 0}, {1, .2}, {1.1, .9}, {-.1, 1}};
  for (int e = 0; e < 4; ++e) { unsigned k = e < 2 ? 2 : 1, b = v.size(); for (unsigned i = 0; i <= k; ++i) { double s = double(i) / k; v.push_back(Point<2>(p[e][0] * (1 - s) + p[(e + 1) % 4][0] * s, p[e][1] * (1 - s) + p[(e + 1) % 4][1] * s)); } for (unsigned i = 0; i < k; ++i) { CellData<1> q; q.vertices[0] = b + i; q.vertices[1] = b + i + 1; q.material_id = 1 + e % 2; c.push_back(q); } }
  t.create_triangulation(v, c, SubCellData()); }
static Quadrature<2> expected(const FiniteElement<2, 3> &f, unsigned k, unsigned o) { return QSplit<2>(QDuffy(o, 1.), f.get_unit_support_points()[k]); }
static Quadrature<1> expected(const FiniteElement<1, 2> &f, unsigned k, unsigned o) { return QTelles<1>(o, f.get_unit_support_points()[k]); }
template <int dim> static void assemble(unsigned degree, unsigned qo, unsigned so, bool report) {
  Any<dim> p; auto &b = p.b; b.scalar_fe_order = b.vector_fe_order = degree; b.quadrature = std::make_shared<QGauss<dim - 1>>(qo); b.quadrature_order = qo; b.singular_quadrature_order = so;
  geometry(p.cd.tria); p.cd.dirichlet_boundary_ids = {1}; { Quiet q; b.reinit(); }
  if (!report) { Quiet q; b.assemble_system(); return; }
  rules.on = true; rules.ids.clear(); unsigned n = b.dh.n_dofs();
  sym_meta("regular", I(rule_id(*b.quadrature)).c_str()); sym_meta("n", I(n).c_str()); sym_meta("dpc", I(b.fe->dofs_per_cell).c_str()); sym_meta("cells", I(p.cd.tria.n_active_cells()).c_str());
  for (unsigned k = 0; k < b.fe->dofs_per_cell; ++k) sym_meta(("singular" + I(k)).c_str(), I(rule_id(expected(*b.fe, k, so))).c_str());
  { Quiet q; b.assemble_system(); b.assemble_system(); } rules.on = false;
  std::vector<Point<dim>> sp(n); DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.dh, sp);
  for (unsigned i = 0; i < n; ++i) { char t[200]; snprintf(t, 200, dim == 3 ? "%.17g,%.17g,%.17g" : "%.17g,%.17g", sp[i][0], sp[i][1], sp[i][dim - 1]); sym_meta(("p" + I(i)).c_str(), t); }
  for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c) { std::vector<types::global_dof_index> s(b.fe->dofs_per_cell); c->get_dof_indices(s); S t; for (auto i : s) t += I(i) + ","; sym_meta(("d" + I(c->active_cell_index())).c_str(), t.c_str()); }
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { double x = b.neumann_matrix(i, j), y = b.dirichlet_matrix(i, j); SYM_OUT(("N" + I(i) + "_" + I(j)).c_str(), x); SYM_OUT(("D" + I(i) + "_" + I(j)).c_str(), y); } }
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S dim = argv[1]; unsigned deg = atoi(argv[2]), qo = atoi(argv[3]), so = atoi(argv[4]); bool second = S(argv[5]) == "second";
  if (second) { if (dim == "2") assemble<2>(deg == 1 ? 2 : 1, qo + 1, so + 1, false); else assemble<3>(deg == 1 ? 2 : 1, qo + 1, so + 1, false); }
  if (dim == "2") assemble<2>(deg, qo, so, true); else assemble<3>(deg, qo, so, true);
  sym_finish();
}
