// Replay stand-in: the same harness interface on the ordinary build of the code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string,std::string> in; static bool ld=false;
static void load(){ ld=true; const char*f=getenv("SYM_INPUT"); if(!f) return; FILE*h=fopen(f,"r"); if(!h) return; char n[512],v[512]; while(fscanf(h,"%511s %511s",n,v)==2) in[n]=v; fclose(h);} 
static FILE*of(){ static FILE*f=nullptr; if(!f){ const char*o=getenv("SYM_OUT"); f=o?fopen((std::string(o)+".replay").c_str(),"w"):stdout; } return f; }
static double gd(const char*n,double d){ if(!ld) load(); auto it=in.find(n); return it==in.end()?d:strtod(it->second.c_str(),nullptr);} 
static long long gi(const char*n,long long d){ if(!ld) load(); auto it=in.find(n); return it==in.end()?d:strtoll(it->second.c_str(),nullptr,0);} 
extern "C" {
double sym_real(const char*n,double d){return gd(n,d);} long long sym_int64(const char*n,long long d){return gi(n,d);} unsigned sym_uint32(const char*n,unsigned d){return (unsigned)gi(n,d);} double sym_input_value(const char*n,double d){return gd(n,d);} void sym_mark(double*p,const char*n,double d){*p=gd(n,d);} 
unsigned sym_expr_d(double){return 0;} unsigned sym_expr_i(int){return 0;} unsigned sym_expr_l(long long){return 0;} unsigned sym_shadow(const void*){return 0;} void sym_set_shadow(void*,unsigned){} void sym_copy_shadow(void*,const void*,unsigned long){} unsigned sym_mk2(unsigned,unsigned,unsigned,double,double,double){return 0;}
void sym_output_(const char*n,double v,unsigned){fprintf(of(),"%s %.17g\n",n,v);} void sym_output_int_(const char*n,long long v,unsigned){fprintf(of(),"%s %lld\n",n,v);} void sym_assume_(int c,unsigned){ if(!c){ fprintf(stderr,"assumption false\n"); exit(77);} } void sym_meta(const char*,const char*){} void sym_finish(void){ fflush(of()); }
}
