// Arbitrary surface gradients, and a solver that returns an arbitrary vector (no preconditioner needed).
#include "bemcommon.h"
#include "constrained_matrix.h"
#include <deal.II/lac/solver_gmres.h>
#include "bemstub.h"
typedef ConstrainedOperator<TV, BEMProblem<3>> Op;
SolverProbe probe;
template <> void BEMProblem<3>::compute_surface_gradients(const TV &) { ++probe.gradients; vector_surface_gradients_solution.reinit(vector_this_cpu_set, mpi_communicator);
  for (auto &k : probe.where) { unsigned i = k.first; for (int c = 0; c < 3; ++c) sym_mark(raw(vector_surface_gradients_solution) + k.second[c], ("s" + I(i) + "_" + I(c)).c_str(), dflt(i, 100 + c)); } }
template <> template <> void SolverGMRES<TV>::solve<Op, TrilinosWrappers::PreconditionILU>(const Op &A, TV &x, const TV &b, const TrilinosWrappers::PreconditionILU &) {
  ++probe.solves; markv(x, "S"); TV y(x); A.vmult(y, x);
  for (unsigned i = 0; i < x.size(); ++i) probe.residual.push_back(0.);
  for (unsigned i = 0; i < x.size(); ++i) probe.residual[i] = raw(y)[i] - raw(b)[i]; }
template <> void BEMProblem<3>::assemble_preconditioner() {}
