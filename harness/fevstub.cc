// Every quadrature weight and normal the code sees on a cell becomes a free variable
// (in both builds): W<cell>_<rule>_<point> and m<cell>_<rule>_<point>_<component>.
#include "bemcommon.h"
#include "fevstub.h"
#include <deal.II/fe/fe_values.h>
Rules rules;
template <int d> static std::string key(const Quadrature<d> &q) { std::string s = I(d); char b[64]; for (unsigned i = 0; i < q.size(); ++i) { for (int k = 0; k < d; ++k) { snprintf(b, 64, ",%.12g", q.point(i)[k]); s += b; } snprintf(b, 64, "/%.12g", q.weight(i)); s += b; } return s; }
template <int d> unsigned rule_id(const Quadrature<d> &q) { std::string k = key(q); auto it = rules.ids.find(k); if (it != rules.ids.end()) return it->second; unsigned n = rules.ids.size(); rules.ids[k] = n; return n; }
template unsigned rule_id<1>(const Quadrature<1> &); template unsigned rule_id<2>(const Quadrature<2> &);
template <int d> static void mark(FEValues<d, d + 1> &f, unsigned cell) { if (!rules.on) return;
  unsigned r = rule_id(f.quadrature), n = f.quadrature.size(); S t = I(cell) + "_" + I(r) + "_";
  auto &o = f.mapping_output; char b[200];
  for (unsigned q = 0; q < n; ++q) {
    if (rules.weights && o.JxW_values.size() == n) sym_mark(&o.JxW_values[q], ("W" + t + I(q)).c_str(), o.JxW_values[q]);
    if (rules.normals && o.normal_vectors.size() == n) for (int c = 0; c <= d; ++c) sym_mark(&o.normal_vectors[q][c], ("m" + t + I(q) + "_" + I(c)).c_str(), o.normal_vectors[q][c]);
    if (!rules.normals && o.normal_vectors.size() == n) { snprintf(b, 200, d == 2 ? "%.17g,%.17g,%.17g" : "%.17g,%.17g", o.normal_vectors[q][0], o.normal_vectors[q][1], o.normal_vectors[q][d]); sym_meta(("m" + t + I(q)).c_str(), b); }
    if (o.quadrature_points.size() == n) { snprintf(b, 200, d == 2 ? "%.17g,%.17g,%.17g" : "%.17g,%.17g", o.quadrature_points[q][0], o.quadrature_points[q][1], o.quadrature_points[q][d]); sym_meta(("x" + t + I(q)).c_str(), b); }
    S sv; if (f.get_fe().n_components() == 1) { for (unsigned j = 0; j < f.get_fe().dofs_per_cell; ++j) { snprintf(b, 200, "%.17g,", f.get_fe().shape_value(j, f.quadrature.point(q))); sv += b; } sym_meta(("s" + t + I(q)).c_str(), sv.c_str()); } } }
#define M23 _ZN6dealii8FEValuesILi2ELi3EE6reinitILb0EEEvRKNS_12TriaIteratorINS_15DoFCellAccessorILi2ELi3EXT_EEEEE
#define M12 _ZN6dealii8FEValuesILi1ELi2EE6reinitILb0EEEvRKNS_12TriaIteratorINS_15DoFCellAccessorILi1ELi2EXT_EEEEE
#define R_(n) __real_##n
#define W_(n) __wrap_##n
#define R(n) R_(n)
#define W(n) W_(n)
extern "C" {
void R(M23)(FEValues<2, 3> *, const TriaIterator<DoFCellAccessor<2, 3, false>> *);
void W(M23)(FEValues<2, 3> *f, const TriaIterator<DoFCellAccessor<2, 3, false>> *c) { R(M23)(f, c); mark(*f, (*c)->active_cell_index()); }
void R(M12)(FEValues<1, 2> *, const TriaIterator<DoFCellAccessor<1, 2, false>> *);
void W(M12)(FEValues<1, 2> *f, const TriaIterator<DoFCellAccessor<1, 2, false>> *c) { R(M12)(f, c); mark(*f, (*c)->active_cell_index()); }
}
