// Contract language for the deductive verifier in /verif/engine (see DESIGN.md).
// The same harness text is (a) compiled to LLVM IR and verified for all inputs, (b) compiled natively (VC_NATIVE)
// against the same /repo headers to replay or search for failing inputs.
#pragma once
#define GEOMETRIX_DEFINE_ASSERT_HANDLERS 1
#include <cmath>
#include <cstddef>
#include <limits>
extern "C" {
  double vc_real(const char*);                 // arbitrary real
  long   vc_int(const char*, long lo, long hi);    // arbitrary integer in [lo,hi], symbolic
  long   vc_choice(const char*, long lo, long hi); // arbitrary integer in [lo,hi], case split
  bool   vc_bool(const char*);
  void   vc_assume(bool);
  void   vc_ensure(bool, const char*);
  void   vc_cover(const char*);
  void   vc_opt(const char*, const char*);
  void   vc_use_contract(void*, void*);
  void   vc_candidate(const char*, void* fn, const char* sig);   // loop invariant candidate bool fn(i: long, d: double, b: bool)
  double vc_fn(const char*, int nargs, ...);              // uninterpreted specification function (doubles)
  long   vc_size(const char*, long lo);                    // any size >= lo (up to 2^40)
  long   vc_index(const char*, long n);                    // any index 0 <= i < n
  double* vc_array(const char*, long n, long k);           // n records of k arbitrary doubles
  double vc_at(double*, long i, long c, long k);           // component c of record i, total (specifications only)
  double vc_fold(const char*, void* step, double init, long i);  // double step(double acc,long j): step(..step(init,0)..,i-1)
  long   vc_fn_int(const char*, long lo, long hi, int nargs, ...);
}
namespace boost {
  [[noreturn]] void assertion_failed(char const*, char const*, char const*, long);
  [[noreturn]] void assertion_failed_msg(char const*, char const*, char const*, char const*, long);
}
#include <geometrix/utility/ignore_unused_warnings.hpp>
#define VC_MAIN(n) extern "C" __attribute__((noinline,used)) void vc_main_##n()
namespace vc {
#ifndef VC_NATIVE
  typedef bool B;
  inline B lt(double a,double b){return a<b;}
  inline B le(double a,double b){return a<=b;}
  inline B eq(double a,double b){return a==b;}
  inline B ne(double a,double b){return a!=b;}
  inline B bl(bool b){return b;}
  inline B Not(B a){return !a;}
  inline B imp(B a,B b){return !a|b;}
  inline B iff(B a,B b){return a==b;}
  inline void REQUIRE(B b){vc_assume(b);}
  inline void ENSURE(B b,const char* n){vc_ensure(b,n);}
  inline double sel(B c,double a,double b){return c?a:b;}
  inline void FAR(double,double){}   // natively: skip inputs where rounding alone could flip a branch of the code; no effect on the proof
#else
  // three valued: comparisons of nearly equal but not identical doubles are undecided natively
  struct B { signed char v; B(bool b):v(b?1:0){} B(signed char x,int):v(x){} };
  inline B und(){return B(2,0);}
  inline double tol(double a,double b){ return 1e-7*(1+std::fabs(a)+std::fabs(b)); }
  inline bool close(double a,double b){ return a!=b && (std::fabs(a-b)<=tol(a,b) || a!=a || b!=b) && !(std::isinf(a)||std::isinf(b)); }
  inline B lt(double a,double b){ return close(a,b)?und():B(a<b);}
  inline B le(double a,double b){ return close(a,b)?und():B(a<=b);}
  inline B eq(double a,double b){ return close(a,b)?und():B(a==b);}
  inline B ne(double a,double b){ return close(a,b)?und():B(a!=b);}
  inline B bl(bool b){return B(b);}
  inline B operator!(B a){ return a.v==2?a:B(a.v==0);}
  inline B operator&(B a,B b){ if(a.v==0||b.v==0) return B(false); if(a.v==2||b.v==2) return und(); return B(true);}
  inline B operator|(B a,B b){ if(a.v==1||b.v==1) return B(true); if(a.v==2||b.v==2) return und(); return B(false);}
  inline B& operator&=(B& a,B b){ a=a&b; return a;}
  inline B& operator|=(B& a,B b){ a=a|b; return a;}
  inline B Not(B a){return !a;}
  inline B imp(B a,B b){return !a|b;}
  inline B iff(B a,B b){ if(a.v==2||b.v==2) return und(); return B(a.v==b.v);}
  inline double sel(B c,double a,double b){return c.v==1?a:b;}
  inline void FAR(double a,double b){ vc_assume(!(std::fabs(a-b)<=1e-6*(1+std::fabs(a)+std::fabs(b)))); }
  inline void REQUIRE(B b){vc_assume(b.v==1);}
  inline void ENSURE(B b,const char* n){vc_ensure(b.v!=0,n);}
#endif
  inline B gt(double a,double b){return lt(b,a);}
  inline B ge(double a,double b){return le(b,a);}
  inline void LEMMA(B b,const char* n){ENSURE(b,n); REQUIRE(b);}   // proved here, available below
  inline void COVER(const char* n){vc_cover(n);}
  inline double sq(double x){return x*x;}
  inline double R(const char* n){return vc_real(n);}
  inline double Rnn(const char* n){double x=vc_real(n); vc_assume(x>=0); return x;}          // >= 0
  inline double Rpos(const char* n){double x=vc_real(n); vc_assume(x>0); return x;}          // > 0
  inline double Runit(const char* n){double x=vc_real(n); vc_assume(0<=x); vc_assume(x<=1); return x;} // [0,1]
  inline double mn(double a,double b){return a<b?a:b;}
  inline double mx(double a,double b){return a<b?b:a;}
  inline double ab(double a){return std::fabs(a);}
}
