// Instrumented models of deal.II's interpolation of a vector at quadrature points and of
// the condensation of constraints.  As in trilinos.cc: the real operation first, then the
// same on the symbols.
#include <deal.II/fe/fe_values.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_vector.h>
#include "sym.h"
using namespace dealii;
typedef TrilinosWrappers::MPI::Vector TV;
typedef TrilinosWrappers::SparseMatrix TM;
typedef AffineConstraints<double> AC;
extern "C" void __sym_clear(void *, unsigned long);
static inline void put(double *p, double t) { unsigned e = sym_expr_d(t); if (e) sym_set_shadow(p, e); else __sym_clear(p, 8); }
static double *at(const TV &v, unsigned i) { int l = v.trilinos_vector().Map().LID((int)i); if (l < 0) abort(); return v.trilinos_vector().Pointers()[0] + l; }
static double *at(const TM &m, unsigned i, unsigned j) { int lr = m.trilinos_matrix().LRID((int)i), lc = m.trilinos_matrix().LCID((int)j); if (lr < 0 || lc < 0) return nullptr; int n, *c; double *v; m.trilinos_matrix().ExtractMyRowView(lr, n, v, c); for (int k = 0; k < n; ++k) if (c[k] == lc) return v + k; return nullptr; }
template <int d> static std::vector<types::global_dof_index> dofs(const FEValuesBase<d, d + 1> &f) {
  const auto c = f.get_cell(); DoFCellAccessor<d, d + 1, false> a(&c->get_triangulation(), c->level(), c->index(), f.present_cell.dof_handler); std::vector<types::global_dof_index> r(f.dofs_per_cell); a.get_dof_indices(r); return r; }
#define R_(n) __real_##n
#define W_(n) __wrap_##n
#define R(n) R_(n)
#define W(n) W_(n)
template <int d> static void values(const FEValuesBase<d, d + 1> &f, const TV &v, std::vector<double> &o) { auto s = dofs<d>(f); for (unsigned q = 0; q < o.size(); ++q) { double t = 0; for (unsigned j = 0; j < s.size(); ++j) t += *at(v, s[j]) * f.shape_value(j, q); put(&o[q], t); } }
template <int d> static void grads(const FEValuesBase<d, d + 1> &f, const TV &v, std::vector<Tensor<1, d + 1>> &o) { auto s = dofs<d>(f); for (unsigned q = 0; q < o.size(); ++q) for (int c = 0; c <= d; ++c) { double t = 0; for (unsigned j = 0; j < s.size(); ++j) t += *at(v, s[j]) * f.shape_grad(j, q)[c]; put(&o[q][c], t); } }
#define V(a, b) _ZNK6dealii12FEValuesBaseILi##a##ELi##b##EE19get_function_valuesINS_16TrilinosWrappers3MPI6VectorEEEvRKT_RSt6vectorINS6_10value_typeESaISA_EE
#define G(a, b) _ZNK6dealii12FEValuesBaseILi##a##ELi##b##EE22get_function_gradientsINS_16TrilinosWrappers3MPI6VectorEEEvRKT_RSt6vectorINS_6TensorILi1ELi##b##ENS6_10value_typeEEESaISC_EE
#define DL _ZNK6dealii17AffineConstraintsIdE26distribute_local_to_globalINS_16TrilinosWrappers12SparseMatrixENS3_3MPI6VectorEEEvRKNS_10FullMatrixIdEERKNS_6VectorIdEERKSt6vectorIjSaIjEERT_RT0_bSt17integral_constantIbLb0EE
#define DV _ZNK6dealii17AffineConstraintsIdE10distributeINS_6VectorIdEEEEvRT_
#define DI _ZNK6dealii17AffineConstraintsIdE10distributeINS_16TrilinosWrappers3MPI6VectorEEEvRT_
extern "C" {
void R(V(2, 3))(const FEValuesBase<2, 3> *, const TV *, std::vector<double> *);
void W(V(2, 3))(const FEValuesBase<2, 3> *f, const TV *v, std::vector<double> *o) { R(V(2, 3))(f, v, o); values<2>(*f, *v, *o); }
void R(G(2, 3))(const FEValuesBase<2, 3> *, const TV *, std::vector<Tensor<1, 3>> *);
void W(G(2, 3))(const FEValuesBase<2, 3> *f, const TV *v, std::vector<Tensor<1, 3>> *o) { R(G(2, 3))(f, v, o); grads<2>(*f, *v, *o); }
void R(V(1, 2))(const FEValuesBase<1, 2> *, const TV *, std::vector<double> *);
void W(V(1, 2))(const FEValuesBase<1, 2> *f, const TV *v, std::vector<double> *o) { R(V(1, 2))(f, v, o); values<1>(*f, *v, *o); }
void R(G(1, 2))(const FEValuesBase<1, 2> *, const TV *, std::vector<Tensor<1, 2>> *);
void W(G(1, 2))(const FEValuesBase<1, 2> *f, const TV *v, std::vector<Tensor<1, 2>> *o) { R(G(1, 2))(f, v, o); grads<1>(*f, *v, *o); }
// homogeneous constraints only; the diagonal of constrained rows is left to the library
void R(DL)(const AC *, const FullMatrix<double> *, const Vector<double> *, const std::vector<unsigned> *, TM *, TV *, bool, std::integral_constant<bool, false>);
void W(DL)(const AC *c, const FullMatrix<double> *m, const Vector<double> *b, const std::vector<unsigned> *id, TM *M, TV *B, bool u, std::integral_constant<bool, false> k) {
  unsigned n = id->size(); std::map<unsigned, double> nb; std::map<std::pair<unsigned, unsigned>, double> nm; std::vector<std::vector<std::pair<unsigned, double>>> ex(n);
  for (unsigned i = 0; i < n; ++i) { if (!c->is_constrained((*id)[i])) ex[i].push_back({(*id)[i], 1.}); else { if (c->is_inhomogeneously_constrained((*id)[i])) abort(); for (auto &e : *c->get_constraint_entries((*id)[i])) ex[i].push_back(e); } }
  for (unsigned i = 0; i < n; ++i) for (auto &x : ex[i]) { auto it = nb.find(x.first); if (it == nb.end()) it = nb.insert({x.first, *at(*B, x.first)}).first; it->second += x.second * (*b)(i);
    for (unsigned j = 0; j < n; ++j) for (auto &y : ex[j]) { double *p = at(*M, x.first, y.first); if (!p) continue; auto t = nm.find({x.first, y.first}); if (t == nm.end()) t = nm.insert({{x.first, y.first}, *p}).first; t->second += x.second * y.second * (*m)(i, j); } }
  R(DL)(c, m, b, id, M, B, u, k);
  for (auto &x : nb) put(at(*B, x.first), x.second);
  for (auto &x : nm) if (double *p = at(*M, x.first.first, x.first.second)) put(p, x.second); }
void R(DI)(const AC *, TV *);
void W(DI)(const AC *c, TV *v) { std::map<unsigned, double> o; for (auto &l : c->get_lines()) { double t = l.inhomogeneity; for (auto &e : l.entries) t += *at(*v, e.first) * e.second; o[l.index] = t; } R(DI)(c, v); for (auto &x : o) put(at(*v, x.first), x.second); }
void R(DV)(const AC *, Vector<double> *);
void W(DV)(const AC *c, Vector<double> *v) { std::map<unsigned, double> o; for (auto &l : c->get_lines()) { double t = l.inhomogeneity; for (auto &e : l.entries) t += (*v)(e.first) * e.second; o[l.index] = t; } R(DV)(c, v); for (auto &x : o) put(v->begin() + x.first, x.second); }
}
