// The functions of the boundary data: arbitrary values at every place.
#include "fnstub.h"
#include "sym.h"
#include <cstdlib>
FnProbe fns;
std::string fn_name(const void *f, const Point<3> &p, unsigned c) {
  auto it = fns.name.find(f); if (it == fns.name.end()) abort(); unsigned k = 0; while (k < fns.places.size() && fns.places[k].distance(p) > 1e-9) ++k; if (k == fns.places.size()) fns.places.push_back(p);
  return it->second + "_" + std::to_string(k) + "_" + std::to_string(c); }
static double val(const void *f, const Point<3> &p0, unsigned c) { fn_name(f, p0, c); unsigned k = 0; while (fns.places[k].distance(p0) > 1e-9) ++k; const Point<3> p = fns.places[k]; unsigned h = (p[0] * 97.3 + p[1] * 31.7 + p[2] * 11.9 + c * 3.1) * 1000.; return sym_real(fn_name(f, p, c).c_str(), (h * 2654435761u % 4001) / 1000. - 2.); }
#define W_(n) __wrap_##n
#define W(n) W_(n)
extern "C" {
double W(_ZNK6dealii9Functions14ParsedFunctionILi3EE5valueERKNS_5PointILi3EdEEj)(const Functions::ParsedFunction<3> *f, const Point<3> &p, unsigned c) { return val(f, p, c); }
void W(_ZNK6dealii9Functions14ParsedFunctionILi3EE12vector_valueERKNS_5PointILi3EdEERNS_6VectorIdEE)(const Functions::ParsedFunction<3> *f, const Point<3> &p, Vector<double> &v) { for (unsigned c = 0; c < v.size(); ++c) v.begin()[c] = val(f, p, c); }
double W(_ZNK6dealii8FunctionILi3EdE5valueERKNS_5PointILi3EdEEj)(const Function<3> *f, const Point<3> &p, unsigned c) { return val(f, p, c); }
void W(_ZNK6dealii8FunctionILi3EdE12vector_valueERKNS_5PointILi3EdEERNS_6VectorIdEE)(const Function<3> *f, const Point<3> &p, Vector<double> &v) { for (unsigned c = 0; c < v.size(); ++c) v.begin()[c] = val(f, p, c); }
void W(_ZNK6dealii8FunctionILi3EdE10value_listERKSt6vectorINS_5PointILi3EdEESaIS4_EERS2_IdSaIdEEj)(const Function<3> *f, const std::vector<Point<3>> &p, std::vector<double> &v, unsigned c) { for (unsigned i = 0; i < p.size(); ++i) v[i] = val(f, p[i], c); }
void W(_ZNK6dealii8FunctionILi3EdE17vector_value_listERKSt6vectorINS_5PointILi3EdEESaIS4_EERS2_INS_6VectorIdEESaISA_EE)(const Function<3> *f, const std::vector<Point<3>> &p, std::vector<Vector<double>> &v) { for (unsigned i = 0; i < p.size(); ++i) for (unsigned c = 0; c < v[i].size(); ++c) v[i].begin()[c] = val(f, p[i], c); }
}
