// Copies, assignments and index maps of the expansion classes and the octree
// block record.  Every output is named "<what>|<input it must equal>" or
// "<what>=<integer it must equal>".
#include <deal.II/lac/full_matrix.h>
#include <deal.II/grid/grid_generator.h>
#include "multipole_expansion.h"
#include "local_expansion.h"
#include "octree_block.h"
#include "sym.h"
#include <cstdlib>
#include <memory>
#include <string>
static AssLegFunction leg;
typedef std::string S;
static S I(int n) { return std::to_string(n); }
static S nm(const S &t, int n, int m, bool im) { return t + (im ? "i" : "r") + I(n) + "_" + I(m); }
template <class X> static void setc(X &e, const S &t, int p) {
  for (int i = 0; i <= p; ++i) for (int m = 0; m <= i; ++m) {
    double re = sym_real(nm(t, i, m, 0).c_str(), 0.3 + 0.1 * i - 0.07 * m), im = sym_real(nm(t, i, m, 1).c_str(), -0.2 + 0.05 * i + 0.03 * m);
    std::complex<double> v(re, im); e.SetCoeff(i, m, v); }
  e.is_zero = false;
}
template <class X> static void outc(const S &what, X &e, const S &t, int p, const S &cen) {
  for (int i = 0; i <= p; ++i) for (int m = 0; m <= i; ++m) {
    SYM_OUT((what + "." + nm("", i, m, 0) + "|" + nm(t, i, m, 0)).c_str(), e.GetCoeff(i, m).real());
    SYM_OUT((what + "." + nm("", i, m, 1) + "|" + nm(t, i, m, 1)).c_str(), e.GetCoeff(i, m).imag()); }
  Point<3> c = e.GetCenter();
  for (int d = 0; d < 3; ++d) SYM_OUT((what + ".c" + I(d) + "|" + cen + I(d)).c_str(), c[d]);
  SYM_OUTI((what + ".zero=0").c_str(), e.is_zero);
}
static Point<3> pt(const S &n) { Point<3> p; for (int i = 0; i < 3; ++i) p[i] = sym_real((n + I(i)).c_str(), 0.1 * i + 0.25); return p; }
template <class X> static void expansion(int p) {
  Point<3> ca = pt("ca"), cb = pt("cb");
  X A(p, ca, &leg); setc(A, "A", p);
  X B(p + 1, cb, &leg); setc(B, "B", p + 1);
  // copy construction, then the original changes
  X C(A); outc("copy", C, "A", p, "ca");
  { std::complex<double> v(7., 8.); X T(p, ca, &leg); setc(T, "T", p); X U(T); T.SetCoeff(p, p, v); T.SetCoeff(0, 0, v); T.SetCenter(cb); outc("copy after original changed", U, "T", p, "ca");
    X W(U); U.AddToCoeff(1, 0, v); U.is_zero = true; outc("original after copy changed", W, "T", p, "ca"); }
  // assignment: default-constructed, smaller and larger targets, and itself
  { X D; D = A; outc("assigned to default", D, "A", p, "ca"); D = B; outc("assigned larger", D, "B", p + 1, "cb"); D = C; outc("assigned smaller", D, "A", p, "ca");
    std::complex<double> v(7., 8.); C.SetCoeff(p, 0, v); outc("assigned after source changed", D, "A", p, "ca");
    X &ref = D; D = ref; outc("assigned to itself", D, "A", p, "ca"); }
  // empty ones
  { X E; X F(E); X G; G = F; SYM_OUTI("empty copy zero=1", F.is_zero); SYM_OUTI("empty assigned zero=1", G.is_zero); G = A; outc("assigned over empty", G, "A", p, "ca"); G = E; SYM_OUTI("emptied=1", G.is_zero); }
  // a fresh expansion is zero
  { X Z(p, ca, &leg); SYM_OUTI("fresh zero=1", Z.is_zero); for (int i = 0; i <= p; ++i) for (int m = 0; m <= i; ++m) { SYM_OUT(("fresh " + nm("", i, m, 0) + "=0").c_str(), Z.GetCoeff(i, m).real()); SYM_OUT(("fresh " + nm("", i, m, 1) + "=0").c_str(), Z.GetCoeff(i, m).imag()); } }
}
static void table(int p) {
  LocalExpansionCoeff T(p), Z(p + 1);
  auto vn = [](int n, int m, int nn, int mm) { return "t" + I(n) + "_" + I(m) + "_" + I(nn) + "_" + I(mm + nn); };
  for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) for (int nn = 0; nn <= p; ++nn) for (int mm = -nn; mm <= nn; ++mm) T.set(n, m, nn, mm, sym_real(vn(n, m, nn, mm).c_str(), n + 0.1 * m + 0.01 * nn + 0.001 * mm));
  auto out = [&](const S &w, LocalExpansionCoeff &t) { for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) for (int nn = 0; nn <= p; ++nn) for (int mm = -nn; mm <= nn; ++mm) SYM_OUT((w + vn(n, m, nn, mm) + "|" + vn(n, m, nn, mm)).c_str(), t.get(n, m, nn, mm)); };
  out("table ", T);
  LocalExpansionCoeff C(T); LocalExpansionCoeff D; D = T; Z = T; Z = *&Z;
  { LocalExpansionCoeff E; LocalExpansionCoeff G(E); G = T; out("from empty ", G); }
  for (int n = 0; n <= p; ++n) for (int nn = 0; nn <= p; ++nn) T.set(n, 0, nn, 0, -5.);
  out("copy ", C); out("assigned ", D); out("assigned over larger ", Z);
}
static void block() {
  Triangulation<2, 3> tria; GridGenerator::hyper_cube(tria); tria.refine_global(1);
  FE_Q<2, 3> fe(1); DoFHandler<2, 3> dh(tria); dh.distribute_dofs(fe);
  std::vector<DoFHandler<2, 3>::active_cell_iterator> cells;
  for (auto c = dh.begin_active(); c != dh.end(); ++c) cells.push_back(c);
  Point<3> pm = pt("pm"); double delta = sym_real("delta", 0.75);
  auto L = [](const S &n, long d) { return (types::global_dof_index)sym_uint32(n.c_str(), d); };
  OctreeBlock<3> A(2, L("parent", 5), pm, delta);
  for (int i = 0; i < 4; ++i) A.AddNode(L("node" + I(i), 10 + i));
  for (int c = 0; c < 3; ++c) for (int k = 0; k < 3; ++k) A.AddQuadPoint(cells[c], L("quad" + I(c) + I(k), 20 + 3 * c + k));
  for (int i = 0; i < 8; ++i) A.AddChild(L("child" + I(i), 40 + i));
  auto out = [&](const S &w, OctreeBlock<3> &B) {
    SYM_OUTI((w + ".parent|parent").c_str(), B.GetParentId());
    for (int d = 0; d < 3; ++d) SYM_OUT((w + ".pmin" + I(d) + "|pm" + I(d)).c_str(), B.GetPMin()[d]);
    SYM_OUT((w + ".delta|delta").c_str(), B.GetDelta());
    SYM_OUTI((w + ".nodes=4").c_str(), B.GetBlockNodesNum());
    auto nl = B.GetBlockNodeList();
    SYM_OUTI((w + ".nodelist=4").c_str(), nl.size());
    for (unsigned i = 0; i < nl.size() && i < 4; ++i) SYM_OUTI((w + ".node" + I(i) + "|node" + I(i)).c_str(), nl[i]);
    auto ql = B.GetBlockQuadPointsList();
    SYM_OUTI((w + ".cells=3").c_str(), ql.size());
    for (int c = 0; c < 3; ++c) { auto &v = ql[cells[c]]; SYM_OUTI((w + ".quads" + I(c) + "=3").c_str(), v.size()); for (unsigned k = 0; k < v.size() && k < 3; ++k) SYM_OUTI((w + ".quad" + I(c) + I(k) + "|quad" + I(c) + I(k)).c_str(), v[k]); }
    SYM_OUTI((w + ".nchild=8").c_str(), B.GetBlockChildrenNum());
    for (int i = 0; i < 8; ++i) SYM_OUTI((w + ".child" + I(i) + "|child" + I(i)).c_str(), B.GetChildId(i));
    SYM_OUTI((w + ".nnlev=2").c_str(), B.GetNearNeighSize()); SYM_OUTI((w + ".illev=3").c_str(), B.GetIntListSize()); SYM_OUTI((w + ".nilev=4").c_str(), B.GetNonIntListSize());
    SYM_OUTI((w + ".nnlev'=2").c_str(), B.NumNearNeighLevels()); SYM_OUTI((w + ".illev'=3").c_str(), B.NumIntListLevels()); SYM_OUTI((w + ".nilev'=4").c_str(), B.NumNonIntListLevels());
    for (int s = 0; s < 2; ++s) { SYM_OUTI((w + ".nn" + I(s) + "=" + I(s + 1)).c_str(), B.NumNearNeigh(s)); int k = 0; for (auto x : B.GetNearNeighs(s)) { SYM_OUTI((w + ".nn" + I(s) + I(k) + "=" + I(100 + 10 * s + k)).c_str(), x); ++k; } }
    for (int s = 0; s < 3; ++s) { SYM_OUTI((w + ".il" + I(s) + "=" + I(3 - s)).c_str(), B.NumIntList(s)); int k = 0; for (auto x : B.GetIntList(s)) { SYM_OUTI((w + ".il" + I(s) + I(k) + "=" + I(200 + 10 * s + k)).c_str(), x); ++k; }
      k = 0; auto il = B.GetIntList(); for (auto x : il[s]) { SYM_OUTI((w + ".ilv" + I(s) + I(k) + "=" + I(200 + 10 * s + k)).c_str(), x); ++k; } }
    for (int s = 0; s < 4; ++s) { SYM_OUTI((w + ".ni" + I(s) + "=2").c_str(), B.NumNonIntList(s)); int k = 0; for (auto x : B.GetNonIntList(s)) { SYM_OUTI((w + ".ni" + I(s) + I(k) + "=" + I(300 + 10 * s + k)).c_str(), x); ++k; } }
  };
  A.SetNearNeighSize(2); A.SetIntListSize(3); A.SetNonIntListSize(4);
  for (int s = 0; s < 2; ++s) for (int k = s; k >= 0; --k) { A.AddNearNeigh(s, 100 + 10 * s + k); A.AddNearNeigh(s, 100 + 10 * s + k); }
  for (int s = 0; s < 3; ++s) for (int k = 0; k < 3 - s; ++k) A.AddBlockToIntList(s, 200 + 10 * s + k);
  for (int s = 0; s < 4; ++s) for (int k = 1; k >= 0; --k) A.AddBlockToNonIntList(s, 300 + 10 * s + k);
  out("built", A);
  OctreeBlock<3> B(A); out("copied", B);
  OctreeBlock<3> C; C.CopyContent(&A); out("content copied", C);
  OctreeBlock<3> D(B); B.DelNodeList(); B.DelQuadPointsList(); B.AddNearNeigh(0, 999); B.AddBlockToIntList(2, 999); B.AddBlockToNonIntList(0, 999);
  SYM_OUTI("emptied.nodes=0", B.GetBlockNodesNum()); SYM_OUTI("emptied.quads=0", B.GetBlockQuadPointsList().size());
  out("original after copy changed", A); out("copy after its source changed", D);
}
int main(int argc, char **argv) {
  S mode = argv[1]; int p = argc > 2 ? atoi(argv[2]) : 0;
  if (mode == "mult") expansion<MultipoleExpansion>(p);
  else if (mode == "local") expansion<LocalExpansion>(p);
  else if (mode == "addraw") {   // raw coefficients: column by column
    LocalExpansion A(p, pt("ca"), &leg); setc(A, "A", p); std::vector<double> re, im; 
    for (int m = 0; m <= p; ++m) for (int n = m; n <= p; ++n) { re.push_back(sym_real(nm("B", n, m, 0).c_str(), 0.4)); im.push_back(sym_real(nm("B", n, m, 1).c_str(), -0.1)); }
    A.Add(re, im);
    for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) for (int k = 0; k < 2; ++k) SYM_OUT(("raw|" + nm("A", n, m, k) + "+" + nm("B", n, m, k)).c_str(), k ? A.GetCoeff(n, m).imag() : A.GetCoeff(n, m).real());
  }
  else if (mode == "rawfresh") {   // raw coefficients given to an empty expansion make it count as non-empty
    LocalExpansion A(p, Point<3>(1., 0., 0.), &leg); std::vector<double> re, im;
    for (int m = 0; m <= p; ++m) for (int n = m; n <= p; ++n) { re.push_back(n == p && m == p ? sym_real("x", 0.4) : 0.); im.push_back(0.); }
    A.Add(re, im); LocalExpansion B(p, Point<3>(1., 0., 0.), &leg); B.Add(A);
    SYM_OUTI("sum is empty=0", B.is_zero); SYM_OUT("raw sum|x", B.GetCoeff(p, p).real());
  }
  else if (mode == "table") table(p);
  else if (mode == "block") block();
  sym_finish();
}
