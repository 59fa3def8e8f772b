// Stand-in for the fast product when BEMProblem is examined on its own: far part
// from the densities the expansions were generated with, near part from those
// given to the product, both with arbitrary (symbolic) matrices.
#include "bem_fma.h"
#include "bemstub.h"
StubFMA stub_fma;
typedef TrilinosWrappers::MPI::Vector TV;
static double *raw(const TV &v) { return v.trilinos_vector().Pointers()[0]; }
#define B(d) \
template <> BEMFMA<d>::BEMFMA(MPI_Comm c) : mpi_communicator(c), n_mpi_processes(1), this_mpi_process(0), pcout(std::cout, false) {} \
template <> BEMFMA<d>::~BEMFMA() {} \
template <> void BEMFMA<d>::init_fma(const DoFHandler<d - 1, d> &, const std::vector<std::set<types::global_dof_index>> &, const TV &, const Mapping<d - 1, d> &, unsigned, unsigned) {} \
template <> void BEMFMA<d>::declare_parameters(ParameterHandler &) {} \
template <> void BEMFMA<d>::parse_parameters(ParameterHandler &) {} \
template <> void BEMFMA<d>::direct_integrals() { stub_fma.calls += "d"; } \
template <> void BEMFMA<d>::multipole_integrals() { stub_fma.calls += "m"; } \
template <> void BEMFMA<d>::generate_octree_blocking() { stub_fma.calls += "o"; } \
template <> TrilinosWrappers::PreconditionILU &BEMFMA<d>::FMA_preconditioner(const TV &, AffineConstraints<double> &) { stub_fma.calls += "p"; return preconditioner; } \
template <> void BEMFMA<d>::generate_multipole_expansions(const TV &phi, const TV &dphi) const { \
  stub_fma.phi.assign(raw(phi), raw(phi) + phi.size()); stub_fma.dphi.assign(raw(dphi), raw(dphi) + dphi.size()); } \
template <> void BEMFMA<d>::multipole_matr_vect_products(const TV &phi, const TV &dphi, TV &N, TV &D) const { \
  unsigned n = phi.size(); StubFMA &s = stub_fma; \
  for (unsigned i = 0; i < n; ++i) { double a = 0, b = 0; \
    for (unsigned j = 0; j < n; ++j) { a += s.nn[i * n + j] * raw(phi)[j] + s.nf[i * n + j] * s.phi[j]; b += s.dn[i * n + j] * raw(dphi)[j] + s.df[i * n + j] * s.dphi[j]; } \
    raw(N)[i] = a; raw(D)[i] = b; } }
B(2) B(3)
