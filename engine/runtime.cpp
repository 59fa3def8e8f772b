// Run-time of the concolic executor: expression DAG, shadow memory, path
// conditions, and the binary dump the Python driver turns into solver terms.
#include "symop.h"
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
typedef uint32_t u32; typedef uint64_t u64; typedef u32 E;
struct Node { u32 op, width, a, b, c, pad; u64 val; };
extern "C" { E __sym_args[512]; void *__sym_tag; E __sym_ret[512]; void *__sym_rettag; void *__sym_byval[64]; }
static Node *N; static u32 nN = 1; static const u64 CAP = 120000000ull;
static u32 *H; static u64 hcap;
struct PC { E e; u32 taken; SymSite *site; u32 kind; };
static std::vector<PC> pcs; static std::vector<SymSite *> *sites_;
struct Var { std::string name; u32 width; u64 val; E e; };
static std::vector<Var> vars; struct Out { std::string name; u64 bits; E e; u32 width; }; static std::vector<Out> outs;
static std::map<std::string, u64> exts; static std::map<std::string,std::string> meta; static u64 stale=0, lostnarrow=0, nanprune=0;
static std::map<std::string, std::string> inputs; static bool inputs_loaded=false;
static std::map<u64, E*> *dummy;

static u64 hsh(u32 op,u32 w,u32 a,u32 b,u32 c,u64 v){ u64 h=op*0x9E3779B97F4A7C15ull^(u64(w)<<32); auto mix=[&](u64 x){h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32;}; mix(a);mix(b);mix(c);mix(v); return h; }
static void init(){ if(N) return; N=(Node*)mmap(0,CAP*sizeof(Node),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); hcap=1<<20; H=(u32*)calloc(hcap,4); }
static E mk(u32 op,u32 w,u32 a,u32 b,u32 c,u64 val){
  if(!N) init();
  u64 key=(op==OP_CONST)?val:(op==OP_VAR?nN:0); u64 i=hsh(op,w,a,b,c,key)&(hcap-1);
  while(H[i]){ Node&n=N[H[i]]; if(n.op==op&&n.width==w&&n.a==a&&n.b==b&&n.c==c&&(op!=OP_CONST||n.val==val)&&op!=OP_VAR) return H[i]; i=(i+1)&(hcap-1); }
  if(nN+1>=CAP){ fprintf(stderr,"SYM: node capacity exceeded\n"); _exit(97); }
  N[nN]=Node{op,w,a,b,c,0,val}; H[i]=nN;
  if(u64(nN)*2>hcap){ u64 nc=hcap*4; u32*h2=(u32*)calloc(nc,4); for(u32 k=1;k<=nN;++k){ Node&n=N[k]; u64 kk=(n.op==OP_CONST)?n.val:(n.op==OP_VAR?k:0); u64 j=hsh(n.op,n.width,n.a,n.b,n.c,kk)&(nc-1); while(h2[j]) j=(j+1)&(nc-1); h2[j]=k; } free(H); H=h2; hcap=nc; }
  return nN++;
}
static inline double D(u64 v){ double d; memcpy(&d,&v,8); return d; }
static inline u64 U(double d){ u64 v; memcpy(&v,&d,8); return v; }
static E cst(u32 w,u64 v){ return mk(OP_CONST,w,0,0,0,v); }
static void hit(SymSite*s){ if(s){ if(!s->hits){ if(!sites_) sites_=new std::vector<SymSite*>; sites_->push_back(s); } s->hits++; } }

// ---- shadow memory: one u32 per byte address, allocated per 4K page on demand
static std::unordered_map<u64,u32*> &pages=*new std::unordered_map<u64,u32*>; static u64 lastp=~0ull; static u32*lastpg=nullptr;
// compact direct cache
static struct { u64 p; u32*pg; } pcache[4096];
static u32* page(u64 a,bool create){ u64 p=a>>12; auto&c=pcache[p&4095]; if(c.p==p&&c.pg) return c.pg;
  auto it=pages.find(p); u32*pg=nullptr; if(it!=pages.end()) pg=it->second; else if(create){ pg=(u32*)calloc(4096,4); pages[p]=pg; }
  if(pg){ c.p=p; c.pg=pg; } return pg; }
// negative cache via a bitmap of page hashes
static unsigned char pbloom[1<<20];
static inline bool maybe(u64 a){ return pbloom[(a>>12)&((1<<20)-1)]; }
extern "C" {
void __sym_clear(void*p,u64 n){ u64 a=(u64)p; if(!n) return;
  u64 lo=a>=8?a-7:a; // an overlapping wider cell starting before a
  for(u64 q=lo>>12;q<=((a+n-1)>>12);++q){ if(!pbloom[q&((1<<20)-1)]) continue; u32*pg=page(q<<12,false); if(!pg) continue; u64 s=q<<12; u64 b=s>a?s:a,e=(s+4096<a+n)?s+4096:a+n; if(b<e) memset(pg+(b-s),0,(e-b)*4);
    for(u64 x=(lo>s?lo:s);x<a&&x<s+4096;++x){ u32 id=pg[x-s]; if(id){ u32 w=N[id].width&255; u32 by=(w+7)/8; if(x+by>a) pg[x-s]=0; } } }
}
void __sym_store(void*p,u32 sz,E e){ __sym_clear(p,sz); if(!e) return; u64 a=(u64)p; pbloom[(a>>12)&((1<<20)-1)]=1; page(a,true)[a&4095]=e; }
E __sym_load(void*p,u32 sz){ u64 a=(u64)p; if(!maybe(a)) return 0; u32*pg=page(a,false); if(!pg) return 0; E e=pg[a&4095];
  if(!e){ // interior of a wider symbolic cell?
    for(u64 k=1;k<8&&(a&4095)>=k;++k){ E o=pg[(a&4095)-k]; if(o){ u32 by=((N[o].width&255)+7)/8; if(by>k) { lostnarrow++; } break; } }
    return 0; }
  u32 by=((N[e].width&255)+7)/8; u64 v=0;
  if(by!=sz){ lostnarrow++; return 0; }
  memcpy(&v,p,sz); if(v!=N[e].val){ stale++; pg[a&4095]=0; return 0; }
  return e; }
void __sym_memcpy(void*d,void*s,u64 n){ if(!n||d==s) return; u64 a=(u64)s; bool any=false; for(u64 q=a>>12;q<=((a+n-1)>>12);++q) if(pbloom[q&((1<<20)-1)]) any=true;
  if(!any){ __sym_clear(d,n); return; }
  std::vector<std::pair<u64,u32>> t; for(u64 i=0;i<n;){ u64 q=a+i; u32*pg=maybe(q)?page(q,false):nullptr; if(!pg){ i+=4096-(q&4095); continue; } u32 e=pg[q&4095]; if(e){ u32 by=((N[e].width&255)+7)/8; if(i+by<=n){ u64 v=0; memcpy(&v,(char*)s+i,by); if(v==N[e].val) t.push_back({i,e}); } } ++i; }
  __sym_clear(d,n); for(auto&x:t){ u64 b=(u64)d+x.first; pbloom[(b>>12)&((1<<20)-1)]=1; page(b,true)[b&4095]=x.second; } }
void __sym_byvalcopy(void*d,void*s,u64 n,bool ok){ if(ok) { if(memcmp(d,s,n)==0) __sym_memcpy(d,s,n); else __sym_clear(d,n);} else __sym_clear(d,n); }

static inline E lift(E e,u32 w,u64 v){ return e?e:cst(w,v); }
E __sym_bin(u32 op,u32 w,E a,E b,u64 va,u64 vb,u64 r,SymSite*s){ hit(s);
  if(w&256){ double ca=D(va),cb=D(vb); if((w&255)==64){
    if(!a&&op==OP_FMUL){ if(ca==0) return 0; if(ca==1) return b; }
    if(!b&&op==OP_FMUL){ if(cb==0) return 0; if(cb==1) return a; }
    if(!b&&op==OP_FDIV&&cb==1) return a;
    if(!a&&op==OP_FDIV&&ca==0) return 0;
    if(!a&&op==OP_FADD&&ca==0&&r==vb) return b;
    if(!b&&(op==OP_FADD||op==OP_FSUB)&&cb==0&&r==va) return a; } }
  else { if(w==1){ if(!a&&op==OP_AND){ return va?b:0;} if(!b&&op==OP_AND){ return vb?a:0; } if(!a&&op==OP_OR) return va?0:b; if(!b&&op==OP_OR) return vb?0:a; } }
  return mk(op,w,lift(a,w,va),lift(b,w,vb),0,r); }
E __sym_un(u32 op,u32 w,E a,u64 va,u64 r,SymSite*s){ hit(s); return mk(op,w,lift(a,w,va),0,0,r); }
E __sym_cmp(u32 op,u32 w,E a,E b,u64 va,u64 vb,u32 r,SymSite*s){ hit(s); return mk(op,1,lift(a,w,va),lift(b,w,vb),0,r&1); }
E __sym_cast(u32 op,u32 ws,u32 wd,E a,u64 va,u64 r,SymSite*s){ hit(s); (void)ws;(void)va; if(op==OP_BITCAST){ if(N[a].op==OP_BITCAST&&N[N[a].a].width==wd) return N[a].a; } return mk(op,wd,a,0,0,r); }
E __sym_select(u32 w,E c,u32 cv,E t,E f,u64 vt,u64 vf,SymSite*s){ hit(s); if(t==f&&(t||vt==vf)) return t; return mk(OP_SELECT,w,c,lift(t,w,vt),lift(f,w,vf),cv?vt:vf); }
E __sym_math(u32 op,E a,E b,u64 va,u64 vb,u64 r,SymSite*s){ hit(s); u32 w=64|256; bool two=(op==OP_ATAN2||op==OP_POW||op==OP_FMAX||op==OP_FMIN||op==OP_COPYSIGN||op==OP_FREM); 
  if(op==OP_POW&&!b){ if(D(vb)==0) return 0; if(D(vb)==1) return a; }
  return mk(op,w,lift(a,w,va),two?lift(b,w,vb):0,0,r); }
void __sym_cexp(E a,E b,u64 va,u64 vb,u64 r0,u64 r1,E*out,SymSite*s){ u32 w=64|256; hit(s);
  E ea = a? mk(OP_EXP,w,a,0,0,U(exp(D(va)))) : 0; double ev=exp(D(va));
  E c = b? mk(OP_COS,w,b,0,0,U(cos(D(vb)))):0; E sn = b? mk(OP_SIN,w,b,0,0,U(sin(D(vb)))):0;
  out[0]=__sym_bin(OP_FMUL,w,ea,c,U(ev),U(cos(D(vb))),r0,s); out[1]=__sym_bin(OP_FMUL,w,ea,sn,U(ev),U(sin(D(vb))),r1,s);
  // the library's rounding may differ by an ulp from exp*cos: keep node values equal to the program's
  auto fix=[&](E&e,u64 r){ if(e&&N[e].val!=r){ e=mk(OP_FADD,w,e,cst(w,U(0.0)),0,r); N[e].val=r; } }; fix(out[0],r0); fix(out[1],r1); }
void __sym_enter(SymSite*s){ hit(s); }
void __sym_branch(E e,u32 taken,SymSite*s){ hit(s); pcs.push_back({e,taken&1,s,0}); }
void __sym_concretize(E e,u32 w,u64 bits,SymSite*s){ hit(s); E k=mk(OP_ICMP_EQ,1,e,cst(w,bits),0,1); pcs.push_back({k,1,s,1}); }
void __sym_ext(void*callee,const char*n,u32 na){ if(__sym_tag==callee){ bool any=false; for(u32 i=0;i<na;++i) if(__sym_args[i]) any=true; if(any) exts[n]++; __sym_tag=nullptr; } }

// ---- harness interface
static void load_inputs(){ inputs_loaded=true; const char*f=getenv("SYM_INPUT"); if(!f) return; FILE*h=fopen(f,"r"); if(!h) return; char n[512],v[512]; while(fscanf(h,"%511s %511s",n,v)==2) inputs[n]=v; fclose(h); }
static double getd(const char*n,double d){ if(!inputs_loaded) load_inputs(); auto it=inputs.find(n); return it==inputs.end()?d:strtod(it->second.c_str(),nullptr); }
static long long geti(const char*n,long long d){ if(!inputs_loaded) load_inputs(); auto it=inputs.find(n); return it==inputs.end()?d:strtoll(it->second.c_str(),nullptr,0); }
static E newvar(const char*n,u32 w,u64 v){ for(auto&x:vars) if(x.name==n) { if(x.val==v) return x.e; fprintf(stderr,"SYM: variable %s redefined\n",n); _exit(96);} E e=mk(OP_VAR,w,(u32)vars.size(),0,0,v); vars.push_back({n,w,v,e}); return e; }
double sym_real(const char*n,double d){ double v=getd(n,d); __sym_ret[0]=newvar(n,64|256,U(v)); __sym_rettag=(void*)&sym_real; return v; }
long long sym_int64(const char*n,long long d){ long long v=geti(n,d); __sym_ret[0]=newvar(n,64,(u64)v); __sym_rettag=(void*)&sym_int64; return v; }
unsigned sym_uint32(const char*n,unsigned d){ unsigned v=(unsigned)geti(n,d); __sym_ret[0]=newvar(n,32,v); __sym_rettag=(void*)&sym_uint32; return v; }
double sym_input_value(const char*n,double d){ return getd(n,d); }
void sym_mark(double*p,const char*n,double d){ double v=getd(n,d); *p=v; __sym_store(p,8,newvar(n,64|256,U(v))); }
unsigned sym_shadow(const void*p){ return __sym_load((void*)p,8); }
void sym_set_shadow(void*p,unsigned e){ if(e){ u64 v; memcpy(&v,p,8); if(N[e].val!=v) e=mk(OP_FADD,64|256,e,cst(64|256,0),0,v), N[e].val=v; } __sym_store(p,8,e); }
void sym_copy_shadow(void*d,const void*s,unsigned long n){ __sym_memcpy(d,(void*)s,n); }
unsigned sym_mk2(unsigned op,unsigned a,unsigned b,double va,double vb,double r){ return __sym_bin(op,64|256,a,b,U(va),U(vb),U(r),nullptr); }
void sym_output_(const char*n,double v,unsigned e){ outs.push_back({n,U(v),e,64|256}); }
void sym_output_int_(const char*n,long long v,unsigned e){ outs.push_back({n,(u64)v,e,64}); }
void sym_assume_(int c,unsigned e){ if(!c){ fprintf(stderr,"SYM: assumption false\n"); exit(77);} if(e) pcs.push_back({e,1,nullptr,2}); }
void sym_meta(const char*k,const char*v){ meta[k]=v; }
static void js(FILE*f,const std::string&s){ fputc('"',f); for(char c:s){ if(c=='"'||c=='\\') fputc('\\',f); if((unsigned char)c<32) { fprintf(f,"\\u%04x",c); continue;} fputc(c,f);} fputc('"',f); }
void sym_finish(void){ const char*o=getenv("SYM_OUT"); if(!o) return; if(!N) init(); std::string base=o; FILE*f=fopen((base+".nodes").c_str(),"wb"); fwrite(N,sizeof(Node),nN,f); fclose(f);
  f=fopen((base+".json").c_str(),"w"); fprintf(f,"{\"n\":%u,\"stale\":%llu,\"lostnarrow\":%llu,\"vars\":[",nN,(unsigned long long)stale,(unsigned long long)lostnarrow);
  for(size_t i=0;i<vars.size();++i){ if(i) fputc(',',f); fprintf(f,"["); js(f,vars[i].name); fprintf(f,",%u,%llu,%u]",vars[i].width,(unsigned long long)vars[i].val,vars[i].e); }
  fprintf(f,"],\"outs\":["); for(size_t i=0;i<outs.size();++i){ if(i) fputc(',',f); fprintf(f,"["); js(f,outs[i].name); fprintf(f,",%u,%llu,%u]",outs[i].width,(unsigned long long)outs[i].bits,outs[i].e); }
  fprintf(f,"],\"pcs\":["); for(size_t i=0;i<pcs.size();++i){ if(i) fputc(',',f); fprintf(f,"[%u,%u,%u,",pcs[i].e,pcs[i].taken,pcs[i].kind); js(f,pcs[i].site?std::string(pcs[i].site->file)+":"+std::to_string(pcs[i].site->line):""); fprintf(f,"]"); }
  fprintf(f,"],\"sites\":["); for(size_t i=0;sites_&&i<sites_->size();++i){ if(i) fputc(',',f); fprintf(f,"["); js(f,(*sites_)[i]->func); fputc(',',f); js(f,(*sites_)[i]->file); fprintf(f,",%u,%u]",(*sites_)[i]->line,(*sites_)[i]->hits); }
  fprintf(f,"],\"exts\":{"); bool first=true; for(auto&x:exts){ if(!first) fputc(',',f); first=false; js(f,x.first); fprintf(f,":%llu",(unsigned long long)x.second);} 
  fprintf(f,"},\"meta\":{"); first=true; for(auto&x:meta){ if(!first) fputc(',',f); first=false; js(f,x.first); fputc(':',f); js(f,x.second);} fprintf(f,"}}\n"); fclose(f); }
}
