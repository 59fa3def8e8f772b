// Records what is printed, integrated over the surface and handed to the file writer; the integrals are arbitrary.
#include "bemcommon.h"
#include "errstub.h"
#include "fnstub.h"
#include <deal.II/base/function.h>
#include <deal.II/numerics/data_out.h>
#include <deal.II/numerics/vector_tools.h>
#include <cstring>
ErrProbe erp;
static S trim(S t) { while (!t.empty() && isspace(t.back())) t.pop_back(); size_t k = 0; while (k < t.size() && isspace(t[k])) ++k; for (auto &c : t) if (isspace(c)) c = '_'; return t.substr(k); }
#define R_(n) __real_##n
#define W_(n) __wrap_##n
#define R(n) R_(n)
#define W(n) W_(n)
#define INTD _ZN6dealii11VectorTools20integrate_differenceILi2ENS_6VectorIdEES3_Li3EEEvRKNS_7MappingIXT_EXT2_EEERKNS_10DoFHandlerIXT_EXT2_EEERKT0_RKNS_8FunctionIXT2_ENSC_10value_typeEEERT1_RKNS_10QuadratureIXT_EEERKNS0_8NormTypeEPKNSF_IXT2_EdEEd
#define ADDV _ZN6dealii15DataOut_DoFDataILi2ELi2ELi3ELi3EE24add_data_vector_internalINS_6VectorIdEEEEvPKNS_10DoFHandlerILi2ELi3EEERKT_RKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaISI_EENS1_14DataVectorTypeERKSC_INS_27DataComponentInterpretation27DataComponentInterpretationESaISP_EEb
#define INSS _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l
#define INSD _ZNSo9_M_insertIdEERSoT_
#define INSL _ZNSo9_M_insertImEERSoT_
extern "C" {
void W(INTD)(const Mapping<2, 3> *, const DoFHandler<2, 3> *dh, const Vector<double> *v, const Function<3> *f, Vector<double> *out, const Quadrature<2> *, const VectorTools::NormType *norm, const Function<3> *weight, double) {
  auto it = fns.name.find(f); S key = (dh->get_fe().n_components() == 1 ? "s-" : "v-") + (it != fns.name.end() ? it->second : dynamic_cast<const Functions::ZeroFunction<3> *>(f) ? S("zero") : S("other")) + "-" + (*norm == VectorTools::L2_norm && !weight ? "L2" : "otherNorm");
  auto &w = erp.integrals[key]; w.assign(v->begin(), v->end()); if (out->size() != dh->get_triangulation().n_active_cells()) out->reinit(dh->get_triangulation().n_active_cells());
  for (unsigned i = 0; i < out->size(); ++i) out->begin()[i] = sym_real(("I" + key + "_" + I(i)).c_str(), .3 + .1 * i); }
typedef std::vector<S> VS; typedef std::vector<DataComponentInterpretation::DataComponentInterpretation> VD;
void R(ADDV)(DataOut_DoFData<2, 2, 3, 3> *, const DoFHandler<2, 3> *, const Vector<double> *, const VS *, int, const VD *, bool);
void W(ADDV)(DataOut_DoFData<2, 2, 3, 3> *o, const DoFHandler<2, 3> *dh, const Vector<double> *v, const VS *n, int t, const VD *d, bool x) {
  R(ADDV)(o, dh, v, n, t, d, x); if (!erp.on) return; auto &w = erp.data[(*n)[0]]; w.assign(v->begin(), v->end()); bool vec = n->size() == 3, sca = n->size() == 1; for (auto &s : *n) if (s != (*n)[0]) vec = false; for (auto i : *d) { if (i != DataComponentInterpretation::component_is_part_of_vector) vec = false; if (i != DataComponentInterpretation::component_is_scalar) sca = false; } if (vec && d->size() != 3) vec = false;
  erp.files[(*n)[0]] = dh->get_fe().n_components() == 3 && vec ? "vector" : dh->get_fe().n_components() == 1 && sca ? "scalar" : "other"; }
std::ostream *R(INSS)(std::ostream *, const char *, long);
std::ostream *W(INSS)(std::ostream *o, const char *s, long n) { if (erp.on) erp.last += S(s, n); return R(INSS)(o, s, n); }
std::ostream *R(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc)(std::ostream *, const char *);
std::ostream *W(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc)(std::ostream *o, const char *s) { if (erp.on) erp.last += s; return R(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc)(o, s); }
std::ostream *R(INSD)(std::ostream *, double);
std::ostream *W(INSD)(std::ostream *o, double x) { if (erp.on) { erp.printed[trim(erp.last)] = x; erp.last = ""; } return R(INSD)(o, x); }
std::ostream *R(INSL)(std::ostream *, unsigned long);
std::ostream *W(INSL)(std::ostream *o, unsigned long x) { if (erp.on) { erp.counts[trim(erp.last)] = x; erp.last = ""; } return R(INSL)(o, x); }
}
