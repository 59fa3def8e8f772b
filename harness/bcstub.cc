// Stand-ins for what surrounds the boundary data: normals, the solver, the materials of the cells.
#include "bemcommon.h"
#include "bcstub.h"
BcProbe bcp;
template <> void BEMProblem<3>::compute_normals() { vector_normals_solution.reinit(vector_this_cpu_set, mpi_communicator); markv(vector_normals_solution, "m" + I(bcp.normals) + "_"); ++bcp.normals; }
template <> void BEMProblem<3>::solve(TV &phi, TV &dphi, const TV &rhs) {
  bcp.phi.assign(raw(phi), raw(phi) + phi.size()); bcp.dphi.assign(raw(dphi), raw(dphi) + phi.size()); bcp.rhs.assign(raw(rhs), raw(rhs) + phi.size());
  markv(phi, "P" + I(bcp.solves) + "_"); markv(dphi, "Q" + I(bcp.solves) + "_"); ++bcp.solves; }
template <> void BEMProblem<3>::compute_gradients(const TV &phi, const TV &dphi) { vector_gradients_solution.reinit(vector_this_cpu_set, mpi_communicator); bcp.gphi.assign(raw(phi), raw(phi) + phi.size()); bcp.gdphi.assign(raw(dphi), raw(dphi) + phi.size()); if (bcp.gradients == 0) bcp.K.resize(vector_gradients_solution.size()); for (unsigned j = 0; j < bcp.K.size(); ++j) { if (bcp.gradients == 0) sym_mark(&bcp.K[j], ("G" + I(j)).c_str(), dflt(j, 71)); raw(vector_gradients_solution)[j] = bcp.K[j] + raw(phi)[j % phi.size()] + .5 * raw(dphi)[j % phi.size()]; } ++bcp.gradients; }
extern "C" unsigned __wrap__ZNK6dealii12CellAccessorILi2ELi3EE11material_idEv(const CellAccessor<2, 3> *c) { if (!bcp.materials) return 1; unsigned k = c->active_cell_index(); return sym_uint32(("mat" + I(k)).c_str(), bcp.mat[k]); }
