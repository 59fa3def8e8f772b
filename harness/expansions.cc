// Drives MultipoleExpansion and LocalExpansion through their public interface
// with symbolic strengths, positions, normals and coefficients.
#include <deal.II/lac/full_matrix.h>
#include "multipole_expansion.h"
#include "local_expansion.h"
#include "sym.h"
#include <cstdlib>
#include <cstring>
#include <string>
static AssLegFunction leg;
static std::string S(const char *a, int n, int m) { return std::string(a) + std::to_string(n) + "_" + std::to_string(m); }
static Point<3> pt(const char *n) {
  Point<3> p; const double d[3] = {0.37, 0.61, -0.29};
  for (int i = 0; i < 3; ++i) p[i] = sym_real((std::string(n) + char('x' + i)).c_str(), d[i] + 0.01 * n[0]);
  return p;
}
template <class X> static void setc(X &e, const char *n, int p) {
  for (int i = 0; i <= p; ++i) for (int m = 0; m <= i; ++m) {
    double re = sym_real(S((std::string(n) + "r").c_str(), i, m).c_str(), 0.3 + 0.1 * i - 0.07 * m);
    double im = m == 0 ? 0.0 : sym_real(S((std::string(n) + "i").c_str(), i, m).c_str(), -0.2 + 0.05 * i + 0.03 * m);
    std::complex<double> v(re, im); e.SetCoeff(i, m, v); }
}
template <class X> static void outc(X &e, const char *n, int p) {
  for (int i = 0; i <= p; ++i) for (int m = 0; m <= i; ++m) { SYM_OUT(S((std::string(n) + "r").c_str(), i, m).c_str(), e.GetCoeff(i, m).real()); SYM_OUT(S((std::string(n) + "i").c_str(), i, m).c_str(), e.GetCoeff(i, m).imag()); }
}
int main(int argc, char **argv) {
  std::string mode = argv[1]; int p = atoi(argv[2]);
  Point<3> c(0.125, -0.25, 0.5);
  if (mode == "p2m") {            // one charge, evaluated far away
    MultipoleExpansion M(p, c, &leg);
    Point<3> x = pt("x"); M.Add(sym_real("q", 1.5), x);
    SYM_OUT("v", M.Evaluate(pt("y"))); SYM_OUTI("z", M.is_zero);
    outc(M, "M", p);
  } else if (mode == "dip") {     // one dipole along an arbitrary (unnormalised) direction
    MultipoleExpansion M(p, c, &leg);
    Point<3> x = pt("x"), n = pt("n"); M.AddNormDer(sym_real("q", 1.5), x, Tensor<1,3>(n));
    SYM_OUT("v", M.Evaluate(pt("y"))); SYM_OUTI("z", M.is_zero);
  } else if (mode == "lin") {     // accumulation of scaled expansions
    MultipoleExpansion A(p, c, &leg), B(p, c, &leg), M(p, c, &leg);
    setc(A, "A", p); setc(B, "B", p); A.is_zero = false; B.is_zero = false;
    M.Add(A, sym_real("s", 1.5)); M.Add(B, sym_real("t", -0.5)); outc(M, "M", p); SYM_OUTI("z", M.is_zero);
  } else if (mode == "m2m") {     // child -> parent
    Point<3> d = pt("d"); MultipoleExpansion A(p, d, &leg), M(p, c, &leg);
    setc(A, "A", p); A.is_zero = false; setc(M, "B", p); M.is_zero = false;
    M.Add(A); outc(M, "M", p); SYM_OUTI("z", M.is_zero);
  } else if (mode == "m2l") {     // multipole -> local
    Point<3> d = pt("d"); MultipoleExpansion A(p, d, &leg); LocalExpansion L(p, c, &leg);
    setc(A, "A", p); A.is_zero = false; setc(L, "B", p); L.is_zero = false;
    L.Add(A); outc(L, "M", p); SYM_OUTI("z", L.is_zero);
  } else if (mode == "l2l") {     // parent local -> child local
    Point<3> d = pt("d"); LocalExpansion A(p, d, &leg), L(p, c, &leg);
    setc(A, "A", p); A.is_zero = false; setc(L, "B", p); L.is_zero = false;
    L.Add(A); outc(L, "M", p); SYM_OUTI("z", L.is_zero);
  } else if (mode == "leval") {
    LocalExpansion L(p, c, &leg); setc(L, "A", p); L.is_zero = false;
    SYM_OUT("v", L.Evaluate(pt("y")));
  } else if (mode == "meval") {
    MultipoleExpansion L(p, c, &leg); setc(L, "A", p); L.is_zero = false;
    SYM_OUT("v", L.Evaluate(pt("y")));
  } else return 3;
  sym_finish();
}
