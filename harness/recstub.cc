// A solver that records the system it is given and returns an arbitrary vector.
#include "bemcommon.h"
#include "bemstub.h"
#include <deal.II/lac/solver_gmres.h>
SolverProbe probe;
template <> template <> void SolverGMRES<TV>::solve<TM, TrilinosWrappers::PreconditionAMG>(const TM &A, TV &x, const TV &b, const TrilinosWrappers::PreconditionAMG &) {
  ++probe.solves; markv(x, "S"); probe.residual.clear(); for (unsigned i = 0; i < x.size(); ++i) probe.residual.push_back(0.);
  for (unsigned i = 0; i < x.size(); ++i) { int k; double *v; int *c; const auto &m = A.trilinos_matrix(); m.ExtractMyRowView(m.LRID((int)i), k, v, c); double t = 0; for (int q = 0; q < k; ++q) t += v[q] * raw(x)[x.trilinos_vector().Map().LID(m.GCID(c[q]))]; probe.residual[i] = t - raw(b)[i]; } }
extern "C" void __wrap__ZN6dealii16TrilinosWrappers15PreconditionAMG10initializeERKNS0_12SparseMatrixERKNS1_14AdditionalDataE(void *, void *, void *) {}
