// Opcodes shared by the compiler pass, the run-time and (by name) the driver.
#pragma once
#include <cstdint>
#define SYM_OPS(X) \
  X(CONST) X(VAR) \
  X(FADD) X(FSUB) X(FMUL) X(FDIV) X(FREM) X(FNEG) \
  X(ADD) X(SUB) X(MUL) X(UDIV) X(SDIV) X(UREM) X(SREM) \
  X(SHL) X(LSHR) X(ASHR) X(AND) X(OR) X(XOR) \
  X(ICMP_EQ) X(ICMP_NE) X(ICMP_UGT) X(ICMP_UGE) X(ICMP_ULT) X(ICMP_ULE) \
  X(ICMP_SGT) X(ICMP_SGE) X(ICMP_SLT) X(ICMP_SLE) \
  X(FCMP_EQ) X(FCMP_NE) X(FCMP_GT) X(FCMP_GE) X(FCMP_LT) X(FCMP_LE) \
  X(TRUNC) X(ZEXT) X(SEXT) X(FPTOUI) X(FPTOSI) X(UITOFP) X(SITOFP) \
  X(FPTRUNC) X(FPEXT) X(BITCAST) X(SELECT) \
  X(SQRT) X(SIN) X(COS) X(TAN) X(ASIN) X(ACOS) X(ATAN) X(ATAN2) X(EXP) X(LOG) \
  X(POW) X(FABS) X(FMAX) X(FMIN) X(FLOOR) X(CEIL) X(ROUND) X(COPYSIGN) X(LINCOMB) X(NMAX) X(LAST)
enum SymOp : uint32_t {
#define X(n) OP_##n,
  SYM_OPS(X)
#undef X
};
struct SymSite { const char *func; const char *file; uint32_t line; uint32_t hits; };
