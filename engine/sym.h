// Interface between a harness and the concolic run-time (or, in the replay
// build, the plain stand-in in replay.cpp that only feeds and prints values).
#pragma once
#ifdef __cplusplus
#define SYM_NX __attribute__((nothrow))
#else
#define SYM_NX
#endif
#ifdef __cplusplus
extern "C" {
#endif
double sym_real(const char *name, double dflt) SYM_NX;
long long sym_int64(const char *name, long long dflt) SYM_NX;
unsigned sym_uint32(const char *name, unsigned dflt) SYM_NX;
double sym_input_value(const char *name, double dflt) SYM_NX; // concrete, not symbolic
void sym_mark(double *p, const char *name, double dflt) SYM_NX;
unsigned sym_expr_d(double v) SYM_NX;
unsigned sym_expr_i(int v) SYM_NX;
unsigned sym_expr_l(long long v) SYM_NX;
unsigned sym_shadow(const void *p) SYM_NX;
void sym_set_shadow(void *p, unsigned e) SYM_NX;
void sym_copy_shadow(void *d, const void *s, unsigned long n) SYM_NX;
unsigned sym_mk2(unsigned op, unsigned a, unsigned b, double va, double vb, double r) SYM_NX;
void sym_output_(const char *name, double v, unsigned e) SYM_NX;
void sym_output_int_(const char *name, long long v, unsigned e) SYM_NX;
void sym_assume_(int c, unsigned e) SYM_NX;
void sym_meta(const char *k, const char *v) SYM_NX;
void sym_finish(void) SYM_NX;
#ifdef __cplusplus
}
#endif
#define SYM_OUT(name, v) do { double v__ = (v); sym_output_(name, v__, sym_expr_d(v__)); } while (0)
#define SYM_OUTI(name, v) do { long long v__ = (v); sym_output_int_(name, v__, sym_expr_l(v__)); } while (0)
#define SYM_ASSUME(c) do { int c__ = (c); sym_assume_(c__, sym_expr_i(c__)); } while (0)
