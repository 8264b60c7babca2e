// CONTRACT: get_bounds (plane and space, whole sequence and index range), update_bound - primitive/point_sequence_utilities.hpp (any number of points)
// CONTRACT: make_aabb of a sequence and of an index range - primitive/axis_aligned_bounding_box.hpp (any number of points)
#include "geo.h"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
static double* gb; static long gn,lo,hi; static int K;
static double C(long i,int c){ return vc_at(gb,i,c,K); }
#define DIM(c) extern "C" double mn##c(double a,long i){ double x=C(lo+i+1,c); return sel(x<a,x,a); } extern "C" double mx##c(double a,long i){ double x=C(lo+i+1,c); return sel(a<x,x,a); } \
 static double LO##c(long i){ return vc_fold("lo" #c,(void*)mn##c,C(lo,c),i); } static double HI##c(long i){ return vc_fold("hi" #c,(void*)mx##c,C(lo,c),i); } \
 extern "C" bool cl##c(double a,long i){ return a==LO##c(i-lo-1); } extern "C" bool ch##c(double a,long i){ return a==HI##c(i-lo-1); }
DIM(0) DIM(1) DIM(2)
#define CND(c) vc_candidate("lo" #c,(void*)cl##c,"di"); vc_candidate("hi" #c,(void*)ch##c,"di");
using RG=std::tuple<std::size_t,std::size_t>; using PG3=polygon<P3>;
static RG range(){ lo=vc_index("from",gn); hi=vc_index("to",gn); vc_assume(lo<=hi); return RG((std::size_t)lo,(std::size_t)hi); }
static void two(double a,double b,double c,double d){ ENSURE(eq(a,LO0(hi-lo))&eq(b,HI0(hi-lo))&eq(c,LO1(hi-lo))&eq(d,HI1(hi-lo)),"bounds are the least and greatest coordinates"); }
static void three(double e,double f){ ENSURE(eq(e,LO2(hi-lo))&eq(f,HI2(hi-lo)),"bounds are the least and greatest third coordinates"); COVER("end"); }
VC_MAIN(bounds_range){ vc_opt("loops","1"); K=2; SymSeq<PG> q("v",1); gb=q.b; gn=q.n; RG r=range(); CND(0) CND(1) auto b=get_bounds(q.get(),r,dcmp); two(std::get<0>(b),std::get<1>(b),std::get<2>(b),std::get<3>(b)); COVER("end"); }
VC_MAIN(bounds3){ vc_opt("loops","1"); K=3; SymSeq<PG3,3> q("v",1); gb=q.b; gn=q.n; lo=0; hi=gn-1; CND(0) CND(1) CND(2) auto b=get_bounds(q.get(),dcmp); two(std::get<0>(b),std::get<1>(b),std::get<2>(b),std::get<3>(b)); three(std::get<4>(b),std::get<5>(b)); }
VC_MAIN(bounds3_range){ vc_opt("loops","1"); K=3; SymSeq<PG3,3> q("v",1); gb=q.b; gn=q.n; RG r=range(); CND(0) CND(1) CND(2) auto b=get_bounds(q.get(),r,dcmp); two(std::get<0>(b),std::get<1>(b),std::get<2>(b),std::get<3>(b)); three(std::get<4>(b),std::get<5>(b)); }
template<class B> static void box(const B& b){ P2 l=b.get_lower_bound(),u=b.get_upper_bound(); two(l[0],u[0],l[1],u[1]); COVER("end"); }
VC_MAIN(aabb_sequence){ vc_opt("loops","1"); K=2; SymSeq<PL> q("v",1); gb=q.b; gn=q.n; lo=0; hi=gn-1; CND(0) CND(1) box(make_aabb<P2>(q.get(),dcmp)); }
VC_MAIN(aabb_range){ vc_opt("loops","1"); K=2; SymSeq<PL> q("v",1); gb=q.b; gn=q.n; RG r=range(); CND(0) CND(1) box(make_aabb<P2>(q.get(),r,dcmp)); }
// every point of the range is within a running least / greatest value
static long gJ; extern "C" bool in0(long i){ return !((lo<=gJ)&(gJ<=lo+i))|((LO0(i)<=C(gJ,0))&(C(gJ,0)<=HI0(i))); }
extern "C" bool rg0(long i){ return i<hi-lo; }
VC_MAIN(fold_bounds){ vc_opt("loops","1"); K=2; SymSeq<PL> q("v",1); gb=q.b; gn=q.n; range(); gJ=vc_index("J",gn); vc_assume(lo<=gJ&&gJ<=hi); vc_candidate("in",(void*)in0,"i");  vc_candidate("rg",(void*)rg0,"i"); 
  for(long i=0;i<hi-lo;++i){ if(gJ==lo+i+1) COVER("at the element"); else COVER("step"); LEMMA(bl(in0(i+1)),"one more element"); } ENSURE(ge(C(gJ,0),LO0(hi-lo))&le(C(gJ,0),HI0(hi-lo)),"every element is between the running least and greatest value"); COVER("end"); }
VC_MAIN(update){ using T=std::tuple<double,double,double,double>; using U=std::tuple<double,double,double,double,double,double>; double a[6],b[6]; for(int i=0;i<6;++i){ a[i]=R("a"); b[i]=R("b"); }
  T t=update_bound(T(a[0],a[1],a[2],a[3]),T(b[0],b[1],b[2],b[3])); ENSURE(eq(std::get<0>(t),mn(a[0],b[0]))&eq(std::get<1>(t),mx(a[1],b[1]))&eq(std::get<2>(t),mn(a[2],b[2]))&eq(std::get<3>(t),mx(a[3],b[3])),"joined bounds in the plane");
  U u=update_bound(U(a[0],a[1],a[2],a[3],a[4],a[5]),U(b[0],b[1],b[2],b[3],b[4],b[5])); ENSURE(eq(std::get<0>(u),mn(a[0],b[0]))&eq(std::get<1>(u),mx(a[1],b[1]))&eq(std::get<2>(u),mn(a[2],b[2]))&eq(std::get<3>(u),mx(a[3],b[3]))&eq(std::get<4>(u),mn(a[4],b[4]))&eq(std::get<5>(u),mx(a[5],b[5])),"joined bounds in space"); COVER("end"); }
