// Laplace kernels on a symbolic separation vector.
#include <deal.II/base/numbers.h>
#include <deal.II/base/point.h>
#include <deal.II/base/tensor.h>
using namespace dealii;
#include "laplace_kernel.h"
#include "sym.h"
#include <cstdlib>
#include <string>
template <int dim> static void run() {
  Point<dim> R; const double d[3] = {0.7, -0.4, 0.9};
  for (int i = 0; i < dim; ++i) R[i] = sym_real((std::string("R") + char('0' + i)).c_str(), d[i]);
  Tensor<1, dim> T = R;
  auto vec = [&](const std::string &n, const Tensor<1, dim> &v) { for (int i = 0; i < dim; ++i) SYM_OUT((n + char('0' + i)).c_str(), v[i]); };
  auto mat = [&](const std::string &n, const Tensor<2, dim> &v) { for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) SYM_OUT((n + char('0' + i) + char('0' + j)).c_str(), v[i][j]); };
  SYM_OUT("g1", LaplaceKernel::single_layer(R));
  vec("d1_", LaplaceKernel::double_layer(R));
  mat("h1_", LaplaceKernel::hypersingular(R));
  { Tensor<1, dim> D; double g; D[0] = 7; LaplaceKernel::kernels(T, D, g); SYM_OUT("g2", g); vec("d2_", D); }
  { Tensor<1, dim> D; Tensor<2, dim> H; double g; D[0] = 7; H[0][1] = 3; LaplaceKernel::kernels(T, H, D, g); SYM_OUT("g3", g); vec("d3_", D); mat("h3_", H); }
}
int main(int, char **argv) {
  if (atoi(argv[1]) == 2) run<2>(); else run<3>();
  sym_finish();
}
