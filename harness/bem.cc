// BEMProblem's algebra: operator, right-hand side, solid angles, constraints.
#include "bemprob.h"
static Mesh small() { Mesh m; face(m, 4, 1); face(m, 1, 2); return m; }
static void op(bool fma, bool neumann, const S &what) {
  Mesh m = small(); std::vector<unsigned> dir; if (!neumann) dir = {1};
  Prob p(m, dir, fma); BEMProblem<3> &b = p.b; unsigned n = b.dh.n_dofs();
  marks(p, fma);
  TV x(b.this_cpu_set, MPI_COMM_WORLD), y(b.this_cpu_set, MPI_COMM_WORLD), z(b.this_cpu_set, MPI_COMM_WORLD);
  markv(x, "x"); markv(y, "y");
  if (what == "alpha") { markv(b.alpha, "a"); b.compute_alpha(); outv("alpha", b.alpha); b.compute_alpha(); outv("second", b.alpha); sym_meta("n", I(n).c_str()); return; }
  if (what == "vmult") { markv(b.alpha, "a"); markv(b.dirichlet_nodes, "d"); markv(b.neumann_nodes, "n"); b.vmult(y, x); outv("y", y); outv("src", x); b.vmult(z, x); outv("again", z); }
  if (what == "rhs") { markv(b.alpha, "a"); markv(b.dirichlet_nodes, "d"); markv(b.neumann_nodes, "n"); b.compute_rhs(y, x); outv("y", y); outv("src", x); b.compute_rhs(z, x); b.compute_rhs(z, x); outv("again", z); }
}
int main(int argc, char **argv) {
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  S mode = argv[1];
  op(S(argv[2]) == "fma", S(argv[3]) == "neumann", mode);
  sym_finish();
}
