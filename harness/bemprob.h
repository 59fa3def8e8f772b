// A problem on a given mesh, and arbitrary matrices for it.
#pragma once
#include "bemcommon.h"
#include "bemstub.h"
#include "constrained_matrix.h"
struct Prob { ComputationalDomain<3> cd; BEMProblem<3> b;
  Prob(Mesh &m, const std::vector<unsigned> &dir, bool fma) : cd(MPI_COMM_WORLD), b(cd, MPI_COMM_WORLD) {
    Quiet q;
    ParameterAcceptor::declare_all_parameters(ParameterAcceptor::prm);
    ParameterAcceptor::parse_all_parameters(ParameterAcceptor::prm);
    b.solution_method = fma ? "FMA" : "Direct";
    m.build(cd.tria); cd.dirichlet_boundary_ids = dir;
    b.reinit(); } };
static void marks(Prob &p, bool fma) {
  BEMProblem<3> &b = p.b; unsigned n = b.dh.n_dofs();
  if (fma) { auto &s = stub_fma; for (auto *v : {&s.nn, &s.nf, &s.dn, &s.df}) v->resize(n * n);
    const char *nm[4] = {"Nn", "Nf", "Dn", "Df"}; std::vector<double> *vs[4] = {&s.nn, &s.nf, &s.dn, &s.df};
    for (int k = 0; k < 4; ++k) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) sym_mark(&(*vs[k])[i * n + j], (S(nm[k]) + I(i) + "_" + I(j)).c_str(), dflt(i, 17 * j + k)); }
  else { markm(b.neumann_matrix, "N"); markm(b.dirichlet_matrix, "D"); }
}
