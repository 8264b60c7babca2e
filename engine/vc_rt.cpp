// Native runtime: replays one input vector, or searches for a failing one. Usage:
//   prog replay <main> v1 v2 ...      prog search <main> <seed> <seconds>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <vector>
#include <string>
#include <set>
#include <random>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <sys/time.h>
static std::vector<double> g_in; static std::vector<std::string> g_names; static size_t g_pos; static bool g_replay; static std::mt19937_64 g_rng; static int g_style;
static sigjmp_buf g_jb; static std::string g_fail; static std::set<std::string> g_cov; static bool g_stop=true;
enum { J_REJECT=1, J_FAIL=2 };
static double draw(const char* n){
  if(g_replay){ double v= g_pos<g_in.size()?g_in[g_pos]:0; g_pos++; g_names.push_back(n); return v; }
  double v; 
  auto U=[&](int a,int b){ return (long)(a+(long)(g_rng()%(unsigned long)(b-a+1))); };
  int k=g_style;
  if(!g_in.empty() && g_rng()%6==0){ v=g_in[g_rng()%g_in.size()]; }
  else switch(k){
    case 0: v=U(-1,1); break;
    case 1: v=U(-2,2); break;
    case 2: v=U(-4,4); break;
    case 3: v=U(0,4)/4.0; break;
    case 4: v=U(-6,6)/2.0; break;
    case 5: v=U(-10,10); break;
    case 6: { double r=(double)(g_rng()>>11)/9007199254740992.0; v=(r*8-4); } break;
    case 7: { int q=U(0,3); v= q==0?U(0,4)/4.0 : q==1?U(-3,3): q==2? U(0,1): U(-8,8)/4.0; } break;
    case 8: { double r=(double)(g_rng()>>11)/9007199254740992.0; v=std::ldexp(r*2-1,(int)U(-4,10)); } break;
    default: v=U(-100,100)/8.0; break;
  }
  g_in.push_back(v); g_names.push_back(n); return v;
}
extern "C" {
 double vc_real(const char* n){ return draw(n); }
 long vc_int(const char* n,long lo,long hi){
   if(g_replay){ double v=draw(n); long k=(long)llround(v); return k<lo?lo:k>hi?hi:k; }
   long span=hi-lo; long k;
   if(span<=12 || g_rng()%4==0){ unsigned long s=(unsigned long)span+1; k= s==0? (long)g_rng() : lo+(long)(g_rng()%s);} 
   else { long c= (lo<=0&&hi>=0)?0:lo; k=c+(long)(g_rng()%17)-8; if(k<lo)k=lo+(lo-k)%(span+1); if(k>hi)k=hi; }
   g_in.push_back((double)k); g_names.push_back(n); return k; }
 long vc_choice(const char* n,long lo,long hi){ return vc_int(n,lo,hi); }
 bool vc_bool(const char* n){ if(g_replay) return draw(n)!=0; bool b=g_rng()&1; g_in.push_back(b); g_names.push_back(n); return b; }
 long vc_size(const char* n,long lo){ return vc_int(n,lo,lo+6); }
 long vc_index(const char* n,long k){ return vc_int(n,0,k-1); }
 static double g_arena[4096]; static int g_ap=0;
 double* vc_array(const char* n,long c,long k){ double* p=g_arena+g_ap; g_ap+=c*k; for(long i=0;i<c*k;++i) p[i]=draw(n); return p; }
 double vc_at(double* b,long i,long c,long k){ long o=(b-g_arena)+i*k+c; return o>=0&&o<4096? g_arena[o]:0; }
 double vc_fold(const char*,void* s,double v,long i){ for(long j=0;j<i;++j) v=((double(*)(double,long))s)(v,j); return v; }
 void vc_assume(bool b){ if(!b) siglongjmp(g_jb,J_REJECT); }
 void vc_ensure(bool b,const char* n){ if(!b){ g_fail=n; siglongjmp(g_jb,J_FAIL);} }
 void vc_cover(const char* n){ g_cov.insert(n); }
 void vc_opt(const char*,const char*){}
 void vc_use_contract(void*,void*){}
 void vc_candidate(const char*,void*,const char*){}
 double vc_fn(const char* n,int k,...){ // deterministic pseudo random function of its arguments (small dyadics)
   va_list ap; va_start(ap,k); unsigned long h=1469598103934665603ul ^ (g_replay?0:0);
   for(const char* p=n;*p;++p) h=(h^(unsigned char)*p)*1099511628211ul;
   for(int i=0;i<k;++i){ double d=va_arg(ap,double); if(d==0)d=0; unsigned long u; memcpy(&u,&d,8); h=(h^u)*1099511628211ul; h^=h>>29; }
   va_end(ap); h*=0x9E3779B97F4A7C15ul; h^=h>>32; return (double)((long)(h%33)-16)/4.0; }
 long vc_fn_int(const char* n,long lo,long hi,int k,...){
   va_list ap; va_start(ap,k); unsigned long h=1469598103934665603ul;
   for(const char* p=n;*p;++p) h=(h^(unsigned char)*p)*1099511628211ul;
   for(int i=0;i<k;++i){ double d=va_arg(ap,double); unsigned long u; memcpy(&u,&d,8); h=(h^u)*1099511628211ul; h^=h>>29; }
   va_end(ap); h*=0x9E3779B97F4A7C15ul; h^=h>>32; unsigned long s=(unsigned long)(hi-lo)+1; return s? lo+(long)(h%s):(long)h; }
}
namespace boost {
 [[noreturn]] void assertion_failed(char const* e,char const*,char const*,long){ g_fail=std::string("library assertion holds: ")+e; siglongjmp(g_jb,J_FAIL); }
 [[noreturn]] void assertion_failed_msg(char const* e,char const*,char const*,char const*,long){ g_fail=std::string("library assertion holds: ")+e; siglongjmp(g_jb,J_FAIL); }
}
static void onsig(int s){ g_fail= s==SIGALRM||s==SIGVTALRM?"terminates":"memory: no invalid access or trap (signal "+std::to_string(s)+")"; siglongjmp(g_jb,J_FAIL); }
typedef void(*fn)();
static int once(fn f,bool timer){ g_ap=0;
  int r=sigsetjmp(g_jb,1);
  if(r==0){
    if(timer){ itimerval t{{0,0},{5,0}}; setitimer(ITIMER_VIRTUAL,&t,nullptr);} 
    try{ f(); }catch(...){ g_fail="no exception is thrown"; if(timer){itimerval z{{0,0},{0,0}}; setitimer(ITIMER_VIRTUAL,&z,nullptr);} return J_FAIL; }
  }
  if(timer){ itimerval z{{0,0},{0,0}}; setitimer(ITIMER_VIRTUAL,&z,nullptr); }
  return r;
}
int main(int c,char** v){
  if(c<3) return 9;
  fn f=(fn)dlsym(nullptr,(std::string("vc_main_")+v[2]).c_str());
  if(!f){ printf("NOMAIN\n"); return 9; }
  for(int s:{SIGSEGV,SIGFPE,SIGABRT,SIGTRAP,SIGBUS,SIGILL,SIGALRM,SIGVTALRM}) { struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=onsig; a.sa_flags=SA_NODEFER; sigaction(s,&a,nullptr); }
  if(!strcmp(v[1],"replay")){
    g_replay=true; for(int i=3;i<c;++i) g_in.push_back(strtod(v[i],nullptr));
    int r=once(f,true);
    for(size_t i=0;i<g_names.size();++i) printf("INPUT %s = %.17g\n",g_names[i].c_str(), i<g_in.size()?g_in[i]:0.0);
    if(r==J_FAIL){ printf("FAIL %s\n",g_fail.c_str()); return 1; }
    printf(r==J_REJECT?"REJECT\n":"PASS\n"); return 0;
  }
  unsigned long seed=strtoul(v[3],nullptr,10); double secs=atof(v[4]);
  g_rng.seed(seed*7919+13);
  timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0); unsigned long n=0,acc=0;
  for(;;++n){
    if((n&255)==0){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); if((t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>secs) break; }
    g_in.clear(); g_names.clear(); { static const int st[8]={0,1,2,3,4,5,7,9}; g_style=st[g_rng()%8]; }
    int r=once(f,(n%64)==0 || true);
    if(r==J_FAIL){
      printf("FAIL %s\nVALUES",g_fail.c_str()); for(double d:g_in) printf(" %.17g",d); printf("\nSAMPLES %lu %lu\n",n+1,acc); return 1; }
    if(r==0) ++acc;
  }
  printf("SAMPLES %lu %lu\n",n,acc); for(auto& s:g_cov) printf("COVER %s\n",s.c_str());
  return 0;
}
