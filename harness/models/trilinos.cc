// Instrumented models of the Trilinos/deal.II vector and matrix operations that
// live in binary libraries.  Each runs the real operation first and then repeats it
// on the raw storage so that the symbolic values follow; the numbers stay the
// library's own (a model that disagreed with them would fail the encoding check).
#include <deal.II/lac/trilinos_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/vector.h>
#include <deal.II/lac/affine_constraints.h>
#include "sym.h"
#include "symop.h"
#include <cmath>
#include <vector>
#include <cstring>
using namespace dealii;
typedef TrilinosWrappers::MPI::Vector TV;
typedef TrilinosWrappers::SparseMatrix TM;
extern "C" void __sym_clear(void *, unsigned long);
static inline void put(double *p, double t) { unsigned e = sym_expr_d(t); if (e) sym_set_shadow(p, e); else __sym_clear(p, 8); }
static inline double *raw(const Epetra_MultiVector &v) { return v.Pointers()[0]; }
static inline double *raw(const TV &v) { return v.vector->Pointers()[0]; }
static inline int len(const Epetra_MultiVector &v) { return v.MyLength(); }
// copy the symbols of src (global layout) to dst where both hold the same global index
static void import(TV &dst, const TV &src) {
  const auto &dm = dst.vector->Map(), &sm = src.vector->Map();
  for (int i = 0; i < dm.NumMyElements(); ++i) { int l = sm.LID(dm.GID(i)); if (l >= 0) put(raw(dst) + i, raw(src)[l]); else __sym_clear(raw(dst) + i, 8); } }
#define R(n) __real_##n
#define W(n) __wrap_##n
extern "C" {
int R(_ZN18Epetra_MultiVector5ScaleEd)(Epetra_MultiVector *, double);
int W(_ZN18Epetra_MultiVector5ScaleEd)(Epetra_MultiVector *v, double a) {
  std::vector<double> o(raw(*v), raw(*v) + len(*v)); int r = R(_ZN18Epetra_MultiVector5ScaleEd)(v, a);
  for (int i = 0; i < len(*v); ++i) put(raw(*v) + i, o[i] * a); return r; }
int R(_ZN18Epetra_MultiVector6UpdateEdRKS_d)(Epetra_MultiVector *, double, const Epetra_MultiVector *, double);
int W(_ZN18Epetra_MultiVector6UpdateEdRKS_d)(Epetra_MultiVector *v, double a, const Epetra_MultiVector *x, double b) {
  std::vector<double> o(raw(*v), raw(*v) + len(*v)), ox(raw(*x), raw(*x) + len(*x)); int r = R(_ZN18Epetra_MultiVector6UpdateEdRKS_d)(v, a, x, b);
  for (int i = 0; i < len(*v); ++i) put(raw(*v) + i, b == 0. ? a * ox[i] : a * ox[i] + b * o[i]); return r; }
int R(_ZN18Epetra_MultiVector8MultiplyEdRKS_S1_d)(Epetra_MultiVector *, double, const Epetra_MultiVector *, const Epetra_MultiVector *, double);
int W(_ZN18Epetra_MultiVector8MultiplyEdRKS_S1_d)(Epetra_MultiVector *v, double a, const Epetra_MultiVector *x, const Epetra_MultiVector *y, double b) {
  std::vector<double> o(raw(*v), raw(*v) + len(*v)), ox(raw(*x), raw(*x) + len(*x)), oy(raw(*y), raw(*y) + len(*y)); int r = R(_ZN18Epetra_MultiVector8MultiplyEdRKS_S1_d)(v, a, x, y, b);
  for (int i = 0; i < len(*v); ++i) put(raw(*v) + i, b == 0. ? a * ox[i] * oy[i] : a * ox[i] * oy[i] + b * o[i]); return r; }
int R(_ZN18Epetra_MultiVector9PutScalarEd)(Epetra_MultiVector *, double);
int W(_ZN18Epetra_MultiVector9PutScalarEd)(Epetra_MultiVector *v, double a) { int r = R(_ZN18Epetra_MultiVector9PutScalarEd)(v, a); for (int i = 0; i < len(*v); ++i) put(raw(*v) + i, a); return r; }
int R(_ZNK18Epetra_MultiVector3DotERKS_Pd)(const Epetra_MultiVector *, const Epetra_MultiVector *, double *);
int W(_ZNK18Epetra_MultiVector3DotERKS_Pd)(const Epetra_MultiVector *v, const Epetra_MultiVector *x, double *res) {
  int r = R(_ZNK18Epetra_MultiVector3DotERKS_Pd)(v, x, res); double t = 0; for (int i = 0; i < len(*v); ++i) t += raw(*v)[i] * raw(*x)[i]; put(res, t); return r; }
int R(_ZNK18Epetra_MultiVector5Norm2EPd)(const Epetra_MultiVector *, double *);
int W(_ZNK18Epetra_MultiVector5Norm2EPd)(const Epetra_MultiVector *v, double *res) {
  int r = R(_ZNK18Epetra_MultiVector5Norm2EPd)(v, res); double t = 0; for (int i = 0; i < len(*v); ++i) t += raw(*v)[i] * raw(*v)[i]; put(res, std::sqrt(t)); return r; }
int R(_ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi)(Epetra_FEVector *, int, const int *, const double *, int);
int W(_ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi)(Epetra_FEVector *v, int n, const int *id, const double *x, int k) {
  int r = R(_ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi)(v, n, id, x, k);
  for (int i = 0; i < n; ++i) { int l = v->Map().LID(id[i]); if (l >= 0) put(raw(*v) + l, x[i]); } return r; }
int R(_ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi)(Epetra_FEVector *, int, const int *, const double *, int);
int W(_ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi)(Epetra_FEVector *v, int n, const int *id, const double *x, int k) {
  std::vector<double> o(raw(*v), raw(*v) + len(*v)); int r = R(_ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi)(v, n, id, x, k);
  for (int i = 0; i < n; ++i) { int l = v->Map().LID(id[i]); if (l >= 0) { o[l] += x[i]; } }
  for (int i = 0; i < n; ++i) { int l = v->Map().LID(id[i]); if (l >= 0) put(raw(*v) + l, o[l]); } return r; }
// deal.II vectors
void R(_ZN6dealii16TrilinosWrappers3MPI6VectorC1ERKS2_)(TV *, const TV *);
void W(_ZN6dealii16TrilinosWrappers3MPI6VectorC1ERKS2_)(TV *d, const TV *s) { R(_ZN6dealii16TrilinosWrappers3MPI6VectorC1ERKS2_)(d, s); import(*d, *s); }
TV *R(_ZN6dealii16TrilinosWrappers3MPI6VectoraSERKS2_)(TV *, const TV *);
TV *W(_ZN6dealii16TrilinosWrappers3MPI6VectoraSERKS2_)(TV *d, const TV *s) { TV *r = R(_ZN6dealii16TrilinosWrappers3MPI6VectoraSERKS2_)(d, s); import(*d, *s); return r; }
void R(_ZN6dealii16TrilinosWrappers3MPI6Vector6reinitERKS2_bb)(TV *, const TV *, bool, bool);
void W(_ZN6dealii16TrilinosWrappers3MPI6Vector6reinitERKS2_bb)(TV *d, const TV *s, bool o, bool a) {
  R(_ZN6dealii16TrilinosWrappers3MPI6Vector6reinitERKS2_bb)(d, s, o, a);
  if (a) import(*d, *s); else if (!o) __sym_clear(raw(*d), 8ul * len(*d->vector)); }
void R(_ZN6dealii16TrilinosWrappers3MPI6Vector6reinitERKNS_8IndexSetEP19ompi_communicator_tb)(TV *, const void *, void *, bool);
void W(_ZN6dealii16TrilinosWrappers3MPI6Vector6reinitERKNS_8IndexSetEP19ompi_communicator_tb)(TV *d, const void *s, void *c, bool o) {
  R(_ZN6dealii16TrilinosWrappers3MPI6Vector6reinitERKNS_8IndexSetEP19ompi_communicator_tb)(d, s, c, o); __sym_clear(raw(*d), 8ul * len(*d->vector)); }
void R(_ZN6dealii16TrilinosWrappers3MPI6Vector3addERKS2_b)(TV *, const TV *, bool);
void W(_ZN6dealii16TrilinosWrappers3MPI6Vector3addERKS2_b)(TV *d, const TV *s, bool o) {
  std::vector<double> a(raw(*d), raw(*d) + len(*d->vector)); R(_ZN6dealii16TrilinosWrappers3MPI6Vector3addERKS2_b)(d, s, o);
  const auto &dm = d->vector->Map(), &sm = s->vector->Map();
  for (int i = 0; i < dm.NumMyElements(); ++i) { int l = sm.LID(dm.GID(i)); put(raw(*d) + i, l >= 0 ? a[i] + raw(*s)[l] : a[i]); } }
double W(_ZNK6dealii16TrilinosWrappers3MPI6VectorclEj)(const TV *v, unsigned i) { int l = v->vector->Map().LID((int)i); if (l < 0) abort(); return raw(*v)[l]; }
double R(_ZNK6dealii16TrilinosWrappers3MPI6VectorclEj)(const TV *v, unsigned i);
double R(_ZNK6dealii16TrilinosWrappers8internal15VectorReferencecvdEv)(const TrilinosWrappers::internal::VectorReference *);
double W(_ZNK6dealii16TrilinosWrappers8internal15VectorReferencecvdEv)(const TrilinosWrappers::internal::VectorReference *r) { return W(_ZNK6dealii16TrilinosWrappers3MPI6VectorclEj)(&r->vector, r->index); }
void R(_ZN6dealii6VectorIdEC1ERKNS_16TrilinosWrappers3MPI6VectorE)(Vector<double> *, const TV *);
void W(_ZN6dealii6VectorIdEC1ERKNS_16TrilinosWrappers3MPI6VectorE)(Vector<double> *d, const TV *s) {
  R(_ZN6dealii6VectorIdEC1ERKNS_16TrilinosWrappers3MPI6VectorE)(d, s); for (unsigned i = 0; i < d->size(); ++i) { int l = s->vector->Map().LID((int)i); if (l >= 0) put(d->begin() + i, raw(*s)[l]); } }
Vector<double> *R(_ZN6dealii6VectorIdEaSERKNS_16TrilinosWrappers3MPI6VectorE)(Vector<double> *, const TV *);
Vector<double> *W(_ZN6dealii6VectorIdEaSERKNS_16TrilinosWrappers3MPI6VectorE)(Vector<double> *d, const TV *s) {
  auto *r = R(_ZN6dealii6VectorIdEaSERKNS_16TrilinosWrappers3MPI6VectorE)(d, s); for (unsigned i = 0; i < d->size(); ++i) { int l = s->vector->Map().LID((int)i); if (l >= 0) put(d->begin() + i, raw(*s)[l]); } return r; }
Vector<double> *R(_ZN6dealii6VectorIdEaSERKS1_)(Vector<double> *, const Vector<double> *);
Vector<double> *W(_ZN6dealii6VectorIdEaSERKS1_)(Vector<double> *d, const Vector<double> *s) { auto *r = R(_ZN6dealii6VectorIdEaSERKS1_)(d, s); if (d != s) for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, s->begin()[i]); return r; }
void R(_ZN6dealii6VectorIdEC1ERKS1_)(Vector<double> *, const Vector<double> *);
void W(_ZN6dealii6VectorIdEC1ERKS1_)(Vector<double> *d, const Vector<double> *s) { R(_ZN6dealii6VectorIdEC1ERKS1_)(d, s); for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, s->begin()[i]); }
Vector<double> *R(_ZN6dealii6VectorIdEaSEd)(Vector<double> *, double);
Vector<double> *W(_ZN6dealii6VectorIdEaSEd)(Vector<double> *d, double s) { auto *r = R(_ZN6dealii6VectorIdEaSEd)(d, s); for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, s); return r; }
void R(_ZN6dealii6VectorIdE6reinitEjb)(Vector<double> *, unsigned, bool);
void W(_ZN6dealii6VectorIdE6reinitEjb)(Vector<double> *d, unsigned n, bool o) { R(_ZN6dealii6VectorIdE6reinitEjb)(d, n, o); if (!o) __sym_clear(d->begin(), 8ul * n); }
Vector<double> *R(_ZN6dealii6VectorIdEmLEd)(Vector<double> *, double);
Vector<double> *W(_ZN6dealii6VectorIdEmLEd)(Vector<double> *d, double s) { std::vector<double> o(d->begin(), d->end()); auto *r = R(_ZN6dealii6VectorIdEmLEd)(d, s); for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, o[i] * s); return r; }
void R(_ZN6dealii6VectorIdE3addEdRKS1_)(Vector<double> *, double, const Vector<double> *);
void W(_ZN6dealii6VectorIdE3addEdRKS1_)(Vector<double> *d, double a, const Vector<double> *x) { std::vector<double> o(d->begin(), d->end()), y(x->begin(), x->end()); R(_ZN6dealii6VectorIdE3addEdRKS1_)(d, a, x); for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, o[i] + a * y[i]); }
Vector<double> *R(_ZN6dealii6VectorIdEpLERKS1_)(Vector<double> *, const Vector<double> *);
Vector<double> *W(_ZN6dealii6VectorIdEpLERKS1_)(Vector<double> *d, const Vector<double> *x) { std::vector<double> o(d->begin(), d->end()), y(x->begin(), x->end()); auto *r = R(_ZN6dealii6VectorIdEpLERKS1_)(d, x); for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, o[i] + y[i]); return r; }
Vector<double> *R(_ZN6dealii6VectorIdEmIERKS1_)(Vector<double> *, const Vector<double> *);
Vector<double> *W(_ZN6dealii6VectorIdEmIERKS1_)(Vector<double> *d, const Vector<double> *x) { std::vector<double> o(d->begin(), d->end()), y(x->begin(), x->end()); auto *r = R(_ZN6dealii6VectorIdEmIERKS1_)(d, x); for (unsigned i = 0; i < d->size(); ++i) put(d->begin() + i, o[i] - y[i]); return r; }
double R(_ZNK6dealii6VectorIdE7l2_normEv)(const Vector<double> *);
double W(_ZNK6dealii6VectorIdE7l2_normEv)(const Vector<double> *v) { double r = R(_ZNK6dealii6VectorIdE7l2_normEv)(v), t = 0; for (unsigned i = 0; i < v->size(); ++i) t += v->begin()[i] * v->begin()[i]; put(&r, std::sqrt(t)); return r; }
double R(_ZNK6dealii6VectorIdE11linfty_normEv)(const Vector<double> *);
double W(_ZNK6dealii6VectorIdE11linfty_normEv)(const Vector<double> *v) { // one opaque maximum, not a path per largest entry
  double r = R(_ZNK6dealii6VectorIdE11linfty_normEv)(v), t = 0; unsigned e = 0; for (unsigned i = 0; i < v->size(); ++i) { unsigned f = sym_expr_d(v->begin()[i]); double x = v->begin()[i]; __sym_clear(&x, 8); double m = std::max(t, std::fabs(x)); e = sym_mk2(OP_NMAX, e, f, t, x, m); t = m; }
  if (e) sym_set_shadow(&r, e); return r; }
// matrices
struct Row { int n = 0, *c = nullptr; double *v = nullptr; };
static Row row(const TM &m, int lr) { Row r; m.matrix->ExtractMyRowView(lr, r.n, r.v, r.c); return r; }
static double *entry(const TM &m, int i, int j) {
  int lr = m.matrix->LRID(i), lc = m.matrix->LCID(j); if (lr < 0 || lc < 0) return nullptr;
  Row r = row(m, lr); for (int k = 0; k < r.n; ++k) if (r.c[k] == lc) return r.v + k; return nullptr; }
static void product(const TM &m, std::vector<double> &o, const TV &x) {
  const auto &cm = m.matrix->ColMap(); const auto &xm = x.vector->Map();
  for (int i = 0; i < m.matrix->NumMyRows(); ++i) { Row r = row(m, i); for (int k = 0; k < r.n; ++k) o[i] += r.v[k] * raw(x)[xm.LID(cm.GID(r.c[k]))]; } }
void _ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS0_3MPI6VectorEEENSt9enable_ifIXsrSt7is_sameINT_10value_typeEdE5valueEvE4typeERS7_RKS7_(const TM *, TV *, const TV *);
void W(_ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS0_3MPI6VectorEEENSt9enable_ifIXsr3std7is_sameINT_10value_typeEdEE5valueEvE4typeERS6_RKS6_)(const TM *m, TV *d, const TV *s) {
  _ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS0_3MPI6VectorEEENSt9enable_ifIXsrSt7is_sameINT_10value_typeEdE5valueEvE4typeERS7_RKS7_(m, d, s);
  std::vector<double> o(m->matrix->NumMyRows(), 0.); product(*m, o, *s); for (size_t i = 0; i < o.size(); ++i) put(raw(*d) + i, o[i]); }
void R(_ZNK6dealii16TrilinosWrappers12SparseMatrix9vmult_addINS0_3MPI6VectorEEEvRT_RKS5_)(const TM *, TV *, const TV *);
void W(_ZNK6dealii16TrilinosWrappers12SparseMatrix9vmult_addINS0_3MPI6VectorEEEvRT_RKS5_)(const TM *m, TV *d, const TV *s) {
  std::vector<double> o(raw(*d), raw(*d) + len(*d->vector)); R(_ZNK6dealii16TrilinosWrappers12SparseMatrix9vmult_addINS0_3MPI6VectorEEEvRT_RKS5_)(m, d, s);
  product(*m, o, *s); for (size_t i = 0; i < o.size(); ++i) put(raw(*d) + i, o[i]); }
double R(_ZNK6dealii16TrilinosWrappers12SparseMatrixclEjj)(const TM *, unsigned, unsigned);
double W(_ZNK6dealii16TrilinosWrappers12SparseMatrixclEjj)(const TM *m, unsigned i, unsigned j) { double *p = entry(*m, i, j); if (!p) return R(_ZNK6dealii16TrilinosWrappers12SparseMatrixclEjj)(m, i, j); return *p; }
double R(_ZNK6dealii16TrilinosWrappers12SparseMatrix2elEjj)(const TM *, unsigned, unsigned);
double W(_ZNK6dealii16TrilinosWrappers12SparseMatrix2elEjj)(const TM *m, unsigned i, unsigned j) { double *p = entry(*m, i, j); if (!p) return 0.; return *p; }
TM *R(_ZN6dealii16TrilinosWrappers12SparseMatrixaSEd)(TM *, double);
TM *W(_ZN6dealii16TrilinosWrappers12SparseMatrixaSEd)(TM *m, double x) { TM *r = R(_ZN6dealii16TrilinosWrappers12SparseMatrixaSEd)(m, x); for (int i = 0; i < m->matrix->NumMyRows(); ++i) { Row w = row(*m, i); __sym_clear(w.v, 8ul * w.n); } return r; }
static void update(TM *m, unsigned i, unsigned n, const unsigned *c, const double *v, bool add, void (*real)(TM *, unsigned, unsigned, const unsigned *, const double *, bool)) {
  std::vector<double> o(n, 0.); std::vector<double *> old(n);
  bool repeated = false; for (unsigned k = 0; k < n; ++k) for (unsigned l = 0; l < k; ++l) repeated |= c[k] == c[l];
  if (repeated) abort();
  for (unsigned k = 0; k < n; ++k) { double *p = entry(*m, i, c[k]); if (p && add) o[k] = *p; o[k] = add && p ? o[k] + v[k] : v[k]; }
  real(m, i, n, c, v, add);
  for (unsigned k = 0; k < n; ++k) { double *p = entry(*m, i, c[k]); if (p) put(p, o[k]); } }
void R(_ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb)(TM *, unsigned, unsigned, const unsigned *, const double *, bool, bool);
void W(_ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb)(TM *m, unsigned i, unsigned n, const unsigned *c, const double *v, bool e, bool s) {
  // a symbolic value that happens to be zero is a value: never elided
  update(m, i, n, c, v, true, [](TM *m, unsigned i, unsigned n, const unsigned *c, const double *v, bool) { R(_ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb)(m, i, n, c, v, false, false); }); (void)e; (void)s; }
void R(_ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b)(TM *, unsigned, unsigned, const unsigned *, const double *, bool);
void W(_ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b)(TM *m, unsigned i, unsigned n, const unsigned *c, const double *v, bool e) {
  update(m, i, n, c, v, false, [](TM *m, unsigned i, unsigned n, const unsigned *c, const double *v, bool) { R(_ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b)(m, i, n, c, v, false); }); (void)e; }
// constraints: close() and merge() permute and rebuild the lines; symbols are re-attached by line
struct Line { std::vector<unsigned> ie; unsigned e = 0; };
typedef AffineConstraints<double> AC;
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static void keep(const AC &c, std::map<unsigned, double> &inh, std::map<unsigned, std::map<unsigned, double>> &en) {
  for (const auto &l : c.get_lines()) { inh[l.index] = l.inhomogeneity; for (const auto &x : l.entries) en[l.index][x.first] = x.second; } }
static void reattach(AC &c, std::map<unsigned, double> &inh, std::map<unsigned, std::map<unsigned, double>> &en) {
  for (auto &l : c.lines) { bool direct = true; for (auto &x : l.entries) if (!en[l.index].count(x.first)) direct = false;
    if (inh.count(l.index) && direct) { if (same(inh[l.index], l.inhomogeneity)) put(&l.inhomogeneity, inh[l.index]); }
    for (auto &x : l.entries) { auto it = en[l.index].find(x.first); if (it != en[l.index].end() && same(it->second, x.second)) put(&x.second, it->second); } } }
void R(_ZN6dealii17AffineConstraintsIdE5closeEv)(AC *);
struct Res { double inh = 0; std::map<unsigned, double> en; };
static void resolve(const AC::ConstraintLine &l, std::map<unsigned, const AC::ConstraintLine *> &m, Res &r, double f, int depth) {
  r.inh += f * l.inhomogeneity; if (depth > 50) abort();
  for (auto &x : l.entries) { auto it = m.find(x.first); double g = f * x.second; if (it == m.end()) { auto q = r.en.find(x.first); if (q == r.en.end()) r.en[x.first] = g; else q->second += g; } else resolve(*it->second, m, r, g, depth + 1); } }
void W(_ZN6dealii17AffineConstraintsIdE5closeEv)(AC *c) {
  std::map<unsigned, Res> rs; { std::map<unsigned, const AC::ConstraintLine *> m; for (auto &l : c->lines) m[l.index] = &l; for (auto &l : c->lines) resolve(l, m, rs[l.index], 1., 0); }
  R(_ZN6dealii17AffineConstraintsIdE5closeEv)(c);
  for (auto &l : c->lines) { Res &r = rs[l.index]; put(&l.inhomogeneity, r.inh); for (auto &x : l.entries) put(&x.second, r.en[x.first]); } }
void R(_ZN6dealii17AffineConstraintsIdE5mergeERKS1_NS1_21MergeConflictBehaviorEb)(AC *, const AC *, int, bool);
void W(_ZN6dealii17AffineConstraintsIdE5mergeERKS1_NS1_21MergeConflictBehaviorEb)(AC *c, const AC *o, int b, bool a) {
  std::map<unsigned, double> inh; std::map<unsigned, std::map<unsigned, double>> en; keep(*c, inh, en); keep(*o, inh, en);
  R(_ZN6dealii17AffineConstraintsIdE5mergeERKS1_NS1_21MergeConflictBehaviorEb)(c, o, b, a);
  for (auto &l : c->lines) { __sym_clear(&l.inhomogeneity, 8); for (auto &x : l.entries) __sym_clear(&x.second, 8); }
  reattach(*c, inh, en); }
}
