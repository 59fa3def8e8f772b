// The fast product: octree, near field, expansions' traffic; against the dense sum.
#include "bemcommon.h"
#include "fevstub.h"
#include "formal.h"
#include "bem_fma.h"
#include "fmamesh.h"
// conversions and evaluations between boxes that touch (or do not exist) count as failures; a node's box is the smallest that holds it
static void touching(BEMFMA<3> &f, const std::vector<Point<3>> &sp) {
  typedef std::array<double, 3> A; std::map<A, double> size; std::map<A, std::pair<A, double>> leaf;
  for (unsigned i = 0; i < f.num_blocks; ++i) { double d = f.blocks[i]->GetDelta(); Point<3> p = f.blocks[i]->GetPMin(); A c; for (int k = 0; k < 3; ++k) c[k] = p[k] + d / 2; size[c] = d;
    for (auto n : f.blocks[i]->GetBlockNodeList()) { A y{{sp[n][0], sp[n][1], sp[n][2]}}; auto l = leaf.find(y); if (l == leaf.end() || l->second.second > d) leaf[y] = {c, d}; } }
  auto touch = [](const A &a, double da, const A &b, double db) { double d = 0; for (int k = 0; k < 3; ++k) d = std::max(d, std::fabs(a[k] - b[k])); return d <= (da + db) / 2 * (1 + 1e-9); };
  auto find = [&](double x, double y, double z) { for (auto &s : size) { double d = 0; d = std::max({std::fabs(s.first[0] - x), std::fabs(s.first[1] - y), std::fabs(s.first[2] - z)}); if (d < 1e-9 * s.second) return s; } return std::pair<const A, double>(A(), -1); };
  for (auto &p : formal.converted) { auto a = find(p[0], p[1], p[2]), b = find(p[3], p[4], p[5]); if (a.second < 0 || b.second < 0 || touch(a.first, a.second, b.first, b.second)) ++formal.bad; }
  for (auto &p : formal.evaluated) { auto a = find(p[0], p[1], p[2]); auto l = leaf.find({{p[3], p[4], p[5]}}); if (a.second < 0 || l == leaf.end() || touch(a.first, a.second, l->second.first, l->second.second)) ++formal.bad; } }
// an earlier life of the object: another element on the coarse mesh, another octree; then one cell is refined
static void before(BEMFMA<3> &f, Triangulation<2, 3> &tria, DoFHandler<2, 3> &dh, FE_Q<2, 3> &fe, MappingQ<2, 3> &map, std::vector<std::set<types::global_dof_index>> &dbl, unsigned levels) {
  Quiet q; dh.distribute_dofs(fe); unsigned n = dh.n_dofs(); std::vector<Point<3>> sp(n); DoFTools::map_dofs_to_support_points<2, 3>(map, dh, sp); dbl = doubles(sp);
  IndexSet all(n); all.add_range(0, n); TV dir(all, MPI_COMM_WORLD), x(all, MPI_COMM_WORLD), y(all, MPI_COMM_WORLD), N(all, MPI_COMM_WORLD), D(all, MPI_COMM_WORLD); for (unsigned i = 0; i < n; ++i) { x(i) = .2 * i - 1; y(i) = 1 - .3 * i; }
  f.num_octree_levels = levels > 2 ? levels - 1 : levels + 1; f.max_num_nodes_per_block = 2; f.trunc_order = 5; f.tbb_granularity = 2;
  f.init_fma(dh, dbl, dir, map, 3, 2); f.generate_octree_blocking(); f.direct_integrals(); f.multipole_integrals(); f.generate_multipole_expansions(x, y); f.multipole_matr_vect_products(x, y, N, D);
  tria.begin_active()->set_refine_flag(); tria.execute_coarsening_and_refinement(); }
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S kind = argv[1]; unsigned levels = atoi(argv[2]), most = atoi(argv[3]), qo = atoi(argv[4]), so = atoi(argv[5]), degree = atoi(argv[6]); S when = argv[7]; bool refined = when == "refined"; if (refined) when = "again";
  Triangulation<2, 3> tria; mesh(kind, tria); FE_Q<2, 3> fe(degree); MappingQ<2, 3> map(1); DoFHandler<2, 3> dh(tria); BEMFMA<3> f(MPI_COMM_WORLD);
  FE_Q<2, 3> fe0(degree % 2 + 1); std::vector<std::set<types::global_dof_index>> dbl0; if (refined) before(f, tria, dh, fe0, map, dbl0, levels);
  dh.distribute_dofs(fe); unsigned n = dh.n_dofs();
  std::vector<Point<3>> sp(n); DoFTools::map_dofs_to_support_points<2, 3>(map, dh, sp);
  std::vector<std::set<types::global_dof_index>> dbl = doubles(sp);
  IndexSet all(n); all.add_range(0, n); TV dir(all, MPI_COMM_WORLD); for (unsigned i = 0; i < n; i += 3) dir(i) = 1; dir.compress(VectorOperation::insert);
  std::ostringstream quiet; auto *old = std::cout.rdbuf(quiet.rdbuf());
  f.num_octree_levels = levels; f.max_num_nodes_per_block = most; f.trunc_order = 6; f.tbb_granularity = 3;
  f.init_fma(dh, dbl, dir, map, qo, so);
  TV x(all, MPI_COMM_WORLD), y(all, MPI_COMM_WORLD), N(all, MPI_COMM_WORLD), D(all, MPI_COMM_WORLD);
  if (when == "again") { for (unsigned i = 0; i < n; ++i) { x(i) = .3 * i - 1; y(i) = 2 - .1 * i; } f.generate_octree_blocking(); f.direct_integrals(); f.multipole_integrals(); f.generate_multipole_expansions(x, y); f.multipole_matr_vect_products(x, y, N, D); f.generate_octree_blocking(); }
  rules.on = true; rules.normals = false;
  sym_meta("regular", I(rule_id(Quadrature<2>(QGauss<2>(qo)))).c_str()); sym_meta("n", I(n).c_str()); sym_meta("dpc", I(fe.dofs_per_cell).c_str()); sym_meta("cells", I(tria.n_active_cells()).c_str());
  for (unsigned k = 0; k < fe.dofs_per_cell; ++k) { sym_meta(("singular" + I(k)).c_str(), (I(rule_id(Quadrature<2>(QTelles<2>(so, fe.get_unit_support_points()[k])))) + "," + I(rule_id(Quadrature<2>(QSplit<2>(QDuffy(so, 1.), fe.get_unit_support_points()[k]))))).c_str()); }
  f.generate_octree_blocking(); f.direct_integrals(); f.multipole_integrals(); rules.on = false;
  if (when == "again") { f.generate_multipole_expansions(y, x); f.multipole_matr_vect_products(y, x, N, D); }
  markv(x, "f"); markv(y, "g"); markv(N, "a"); markv(D, "b"); formal.bad = formal.far = 0;
  formal.converted.clear(); formal.evaluated.clear(); f.generate_multipole_expansions(x, y); f.multipole_matr_vect_products(x, y, N, D); touching(f, sp);
  std::cout.rdbuf(old);
  outv("N", N); outv("D", D); double bad = formal.bad; SYM_OUT("diverging", bad); sym_meta("far", I(formal.far).c_str()); sym_meta("blocks", I(f.num_blocks).c_str()); sym_meta("childless", I(f.childlessList.size()).c_str());
  for (unsigned i = 0; i < n; ++i) { char t[200]; snprintf(t, 200, "%.17g,%.17g,%.17g", sp[i][0], sp[i][1], sp[i][2]); sym_meta(("p" + I(i)).c_str(), t); }
  for (auto c = dh.begin_active(); c != dh.end(); ++c) { std::vector<types::global_dof_index> s(fe.dofs_per_cell); c->get_dof_indices(s); S t; for (auto i : s) t += I(i) + ","; sym_meta(("d" + I(c->active_cell_index())).c_str(), t.c_str()); }
  sym_finish();
}
