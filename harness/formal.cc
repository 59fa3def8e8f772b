// Exact stand-ins for the multipole and local expansions (their own exactness is
// decided separately): an expansion is the set of sources it stands for.  Every
// use in which the real series would not converge to the field of those sources
// is counted in formal.bad.
#include "multipole_expansion.h"
#include "local_expansion.h"
#include "formal.h"
Formal formal;
FullMatrix<double> MultipoleExpansion::A_n_m; FullMatrix<double> LocalExpansion::A_n_m;
std::vector<std::vector<std::map<int, std::map<int, double>>>> LocalExpansion::lExp_to_lExp_Coeff;
LocalExpansionCoeff LocalExpansion::mExp_to_lExp_Coeff;
typedef std::map<unsigned, double> W;                                  // source -> strength
struct LKey { unsigned src, src_center, own_center; bool operator<(const LKey &o) const { return std::tie(src, src_center, own_center) < std::tie(o.src, o.src_center, o.own_center); } };
typedef std::map<LKey, double> V;
static std::map<const void *, W> mw; static std::map<const void *, V> lw;
static std::map<const void *, unsigned> order_of, center_of;
static std::vector<Point<3>> centers;
static unsigned center(const Point<3> &p) { for (unsigned i = centers.size(); i--;) if (centers[i] == p) return i; centers.push_back(p); return centers.size() - 1; }
static unsigned source(const Point<3> &x, const Tensor<1, 3> &n, bool dip) { std::array<double, 7> k{{x[0], x[1], x[2], n[0], n[1], n[2], double(dip)}}; auto it = formal.ids.find(k); if (it != formal.ids.end()) return it->second; unsigned i = formal.ids.size(); formal.ids[k] = i; formal.src.push_back(k); return i; }
static Point<3> at(unsigned s) { return Point<3>(formal.src[s][0], formal.src[s][1], formal.src[s][2]); }
static double field(unsigned s, const Point<3> &y) { Tensor<1, 3> R = at(s) - y; double r = R.norm(); if (formal.src[s][6] == 0) return 1. / r; Tensor<1, 3> n; for (int k = 0; k < 3; ++k) n[k] = formal.src[s][3 + k]; return -(n * R) / (n.norm() * r * r * r); }
// an expansion whose centre was moved after it got its content no longer stands for its sources
static void pin(const void *o, const Point<3> &c, bool empty) { unsigned i = center(c); if (!empty && center_of.count(o) && center_of[o] != i) ++formal.bad; center_of[o] = i; }
#define ME MultipoleExpansion
#define LE LocalExpansion
ME::ME() : is_zero(true), p(0), assLegFunction(nullptr), _M_n_m(nullptr) { mw[this]; }
ME::ME(const unsigned o, const Point<3> &c, const AssLegFunction *a) : is_zero(true), p(o), center(c), assLegFunction(a), _M_n_m(nullptr) { mw[this]; pin(this, c, true); }
ME::ME(const ME &o) : is_zero(o.is_zero), p(o.p), center(o.center), assLegFunction(o.assLegFunction), _M_n_m(nullptr) { W t = mw[&o]; mw[this] = t; pin(this, center, true); }
ME::~ME() { mw.erase(this); center_of.erase(this); }
ME &ME::operator=(const ME &o) { if (this == &o) return *this; W t = mw[&o]; is_zero = o.is_zero; p = o.p; center = o.center; assLegFunction = o.assLegFunction; mw[this] = t; pin(this, center, true); return *this; }
static void acc(W &w, unsigned s, double x) { auto it = w.find(s); if (it == w.end()) w[s] = x; else it->second += x; }
void ME::Add(const ME &o, const double f) { pin(this, center, mw[this].empty()); W t = mw[&o]; if (t.empty()) return; if (!(o.center == center) || o.p != p) ++formal.bad; for (auto &x : t) acc(mw[this], x.first, x.second * f); is_zero = false; }
void ME::Add(const double q, const Point<3> &x) { pin(this, center, mw[this].empty()); acc(mw[this], source(x, Tensor<1, 3>(), false), q); is_zero = false; }
void ME::AddNormDer(const double q, const Point<3> &x, const Tensor<1, 3> &n) { pin(this, center, mw[this].empty()); acc(mw[this], source(x, n, true), q); is_zero = false; }
void ME::Add(const ME &o) { pin(this, center, mw[this].empty()); W t = mw[&o]; if (t.empty()) return; if (o.p != p) ++formal.bad; for (auto &x : t) acc(mw[this], x.first, x.second); is_zero = false; }
double ME::Evaluate(const Point<3> &y) { double v = 0; pin(this, center, mw[this].empty()); if (mw[this].size()) formal.evaluated.insert({{center[0], center[1], center[2], y[0], y[1], y[2]}}); for (auto &x : mw[this]) { if (!(at(x.first).distance(center) <= formal.m2p * y.distance(center))) ++formal.bad; v += x.second * field(x.first, y); ++formal.far; } return v; }
LE::LE() : is_zero(true), p(0), assLegFunction(nullptr), _L_n_m(nullptr) { lw[this]; }
LE::LE(const unsigned o, const Point<3> &c, const AssLegFunction *a) : is_zero(true), p(o), center(c), assLegFunction(a), _L_n_m(nullptr) { lw[this]; pin(this, c, true); }
LE::LE(const LE &o) : is_zero(o.is_zero), p(o.p), center(o.center), assLegFunction(o.assLegFunction), _L_n_m(nullptr) { V t = lw[&o]; lw[this] = t; pin(this, center, true); }
LE::~LE() { lw.erase(this); center_of.erase(this); }
LE &LE::operator=(const LE &o) { if (this == &o) return *this; V t = lw[&o]; is_zero = o.is_zero; p = o.p; center = o.center; assLegFunction = o.assLegFunction; lw[this] = t; pin(this, center, true); return *this; }
static void acc(V &w, const LKey &s, double x) { auto it = w.find(s); if (it == w.end()) w[s] = x; else it->second += x; }
void LE::Add(const std::vector<double> &, const std::vector<double> &) { ++formal.bad; }
void LE::Add(const LE &o) { pin(this, center, lw[this].empty()); V t = lw[&o]; if (t.empty()) return; if (o.p != p) ++formal.bad; for (auto &x : t) acc(lw[this], x.first, x.second); is_zero = false; }
void LE::Add(const ME &o) { pin(this, center, lw[this].empty()); W t = mw[&o]; if (t.empty()) return; if (!(o.center.distance(center) > 0)) ++formal.bad; formal.converted.insert({{o.center[0], o.center[1], o.center[2], center[0], center[1], center[2]}}); for (auto &x : t) acc(lw[this], LKey{x.first, ::center(o.center), ::center(center)}, x.second); is_zero = false; }
double LE::Evaluate(const Point<3> &y) { double v = 0; pin(this, center, lw[this].empty()); for (auto &x : lw[this]) { const Point<3> a = centers[x.first.src_center], b = centers[x.first.own_center]; if (!(at(x.first.src).distance(a) + y.distance(b) <= formal.m2l * a.distance(b))) ++formal.bad; v += x.second * field(x.first.src, y); ++formal.far; } return v; }
