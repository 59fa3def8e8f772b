#include <deal.II/lac/full_matrix.h>
#include "ass_leg_function.h"
#include "sym.h"
#include <cstdlib>
#include <string>
int main(int argc, char **argv) {
  static AssLegFunction leg; int nmax = atoi(argv[1]); double x = sym_real("x", 0.3);
  for (int n = 0; n <= nmax; ++n) for (int m = 0; m <= n; ++m) {
    std::string t = std::to_string(n) + "_" + std::to_string(m);
    SYM_OUT(("P" + t).c_str(), leg.GetAssLegFunSph(n, m, x));
    SYM_OUT(("D" + t).c_str(), leg.GetAssLegFunSphDeriv(n, m, x)); }
  for (int m = 0; m <= nmax; ++m) {
    std::vector<double> y(nmax + 1, 0.), yy(nmax + 1, 0.), dy(nmax + 1, 0.);
    leg.AssLegFunSph(nmax, m, x, y.data()); leg.AssLegFunSphDeriv(nmax, m, x, yy.data(), dy.data());
    for (int n = 0; n <= nmax - m; ++n) { std::string t = std::to_string(n + m) + "_" + std::to_string(m);
      SYM_OUT(("A" + t).c_str(), y[n]); SYM_OUT(("B" + t).c_str(), yy[n]); SYM_OUT(("C" + t).c_str(), dy[n]); }
  }
  sym_finish();
}
