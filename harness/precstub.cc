// A solver that returns an arbitrary vector, and the matrix given to the incomplete factorisation.
#include "bemcommon.h"
#include "precstub.h"
#ifndef PREC_FMA
#include "constrained_matrix.h"
#include <deal.II/lac/solver_gmres.h>
#include "bemstub.h"
typedef ConstrainedOperator<TV, BEMProblem<3>> Op;
SolverProbe probe;
template <> void BEMProblem<3>::compute_surface_gradients(const TV &) { vector_surface_gradients_solution.reinit(vector_this_cpu_set, mpi_communicator); }
template <> template <> void SolverGMRES<TV>::solve<Op, TrilinosWrappers::PreconditionILU>(const Op &, TV &x, const TV &, const TrilinosWrappers::PreconditionILU &p) { ++probe.solves; if (prec.which == &p) ++prec.used; markv(x, "S"); }
#endif
PrecProbe prec;
extern "C" void __wrap__ZN6dealii16TrilinosWrappers15PreconditionILU10initializeERKNS0_12SparseMatrixERKNS1_14AdditionalDataE(TrilinosWrappers::PreconditionILU *p, const TM *m, const void *) {
  ++prec.count; prec.which = p; prec.row.assign(m->m(), {});
  for (unsigned i = 0; i < m->m(); ++i) { int k; double *v; int *c; const auto &t = m->trilinos_matrix(); t.ExtractMyRowView(t.LRID((int)i), k, v, c); for (int q = 0; q < k; ++q) prec.row[i][t.GCID(c[q])] = v[q]; } }
