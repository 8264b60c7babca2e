// CONTRACT: segment_polygon_closest_point, segment_polyline_closest_point (whole sequences and index ranges) - algorithm/distance (any number of points; segment_segment_closest_point enters by its contract, proved in C02)
// CONTRACT: segment_subpolygon_distance_sqrd, subpolygon_subpolygon_distance_sqrd_brute, segment_subpolyline_distance_sqrd, subpolyline_subpolyline_distance_sqrd_brute, polygon_polygon_distance_sqrd_brute, polyline_polyline_distance_sqrd_brute - algorithm/distance (any number of points)
// ASSUMES: consecutive points are distinct (the segment kernels are proved in C02 for proper segments)
#include "geo.h"
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
using DC=direct_comparison_policy; using RG=std::tuple<std::size_t,std::size_t>; using sz=std::size_t;
static double* gb; static long gn; static P2 gp,gq; static long lo,hi;
static P2 V(long i){ return P2{vc_at(gb,i,0,2),vc_at(gb,i,1,2)}; }
static void proper(bool closed){
#ifdef VC_NATIVE
  for(long i=0;i<gn;++i) if(closed||i+1<gn){ P2 a=V(i),b=V((i+1)%gn); vc_assume(a[0]!=b[0]||a[1]!=b[1]); }
  vc_assume(gp[0]!=gq[0]||gp[1]!=gq[1]);
#endif
}
// ---- contract of the segment kernel: squared distance and closest points, functions of the two segments
static double D(const char* f,const P2& p,const P2& q,const P2& a,const P2& b){
#ifdef VC_NATIVE
  double s,t; P2 c,d; double r=segment_segment_closest_point(p,q,a,b,s,t,c,d,dcmp); return *f=='d'?r:*f=='s'?s:*f=='t'?t:*f=='a'?(f[1]=='x'?c[0]:c[1]):(f[1]=='x'?d[0]:d[1]);
#else
  return vc_fn(f,8,p[0],p[1],q[0],q[1],a[0],a[1],b[0],b[1]);
#endif
}
typedef double (*SSC)(const P2&,const P2&,const P2&,const P2&,double&,double&,P2&,P2&,const DC&); typedef double (*SSD)(const P2&,const P2&,const P2&,const P2&,const DC&);
__attribute__((noinline)) static double ssc(const P2& p,const P2& q,const P2& a,const P2& b,double& s,double& t,P2& c,P2& d,const DC&){ s=D("s",p,q,a,b); t=D("t",p,q,a,b); c=P2{D("ax",p,q,a,b),D("ay",p,q,a,b)}; d=P2{D("bx",p,q,a,b),D("by",p,q,a,b)}; double r=D("d",p,q,a,b); vc_assume(r>=0); return r; }
__attribute__((noinline)) static double ssd(const P2& p,const P2& q,const P2& a,const P2& b,const DC&){ double r=D("d",p,q,a,b); vc_assume(r>=0); return r; }
static double at(const char* f,long i,long j){ return D(f,gp,gq,V(i),V(j)); }
extern "C" double st(double a,long j){ return mn(at("d",j,j+1),a); }            // polygons: closing edge first
extern "C" double sr(double a,long j){ return mn(at("d",lo+j+1,lo+j+2),a); }    // ranges and polylines: from edge lo on
static double G(long i){ return vc_fold("g",(void*)st,at("d",gn-1,0),i); } static double L(long i){ return vc_fold("l",(void*)sr,at("d",lo,lo+1),i); }
extern "C" bool cg(double a,long i){ return a==G(i); } extern "C" bool cl(double a,long i){ return a==L(i-lo-1); }
extern "C" bool w_d(double a,long i,long j){ return a==at("d",i,j); } extern "C" bool w_s(double a,long i,long j){ return a==at("s",i,j); } extern "C" bool w_t(double a,long i,long j){ return a==at("t",i,j); }
extern "C" bool w_ax(double a,long i,long j){ return a==at("ax",i,j); } extern "C" bool w_ay(double a,long i,long j){ return a==at("ay",i,j); } extern "C" bool w_bx(double a,long i,long j){ return a==at("bx",i,j); } extern "C" bool w_by(double a,long i,long j){ return a==at("by",i,j); }
extern "C" bool n_d(double a,long i){ return a==at("d",i,i+1); } extern "C" bool n_s(double a,long i){ return a==at("s",i,i+1); } extern "C" bool n_t(double a,long i){ return a==at("t",i,i+1); }
extern "C" bool n_ax(double a,long i){ return a==at("ax",i,i+1); } extern "C" bool n_ay(double a,long i){ return a==at("ay",i,i+1); } extern "C" bool n_bx(double a,long i){ return a==at("bx",i,i+1); } extern "C" bool n_by(double a,long i){ return a==at("by",i,i+1); }
// the same for an edge whose successor index wraps around
static long nxt(long i){ return i==gn-1?0:i+1; }
#define W(f) extern "C" bool c_##f(double a,long i){ return i==gn-1?a==at(#f,i,0):a==at(#f,i,i+1); }
W(d) W(s) W(t) W(ax) W(ay) W(bx) W(by)
#define CAND(p) vc_candidate("d",(void*)p##_d,"di"); vc_candidate("s",(void*)p##_s,"di"); vc_candidate("t",(void*)p##_t,"di"); vc_candidate("ax",(void*)p##_ax,"di"); vc_candidate("ay",(void*)p##_ay,"di"); vc_candidate("bx",(void*)p##_bx,"di"); vc_candidate("by",(void*)p##_by,"di");
static void kernels(){ vc_opt("loops","1"); gp=rp2("px","py"); gq=rp2("qx","qy"); vc_use_contract((void*)static_cast<SSC>(&segment_segment_closest_point<P2,DC>),(void*)&ssc); vc_use_contract((void*)static_cast<SSD>(&segment_segment_distance_sqrd<P2,P2,P2,P2,DC>),(void*)&ssd); }
static void check(double d,double want,sz k,long a,long b,bool closed,double s,double t,const P2& c,const P2& e){ long i=(long)k;
  ENSURE(eq(d,want),"the distance is the least over the edges"); bool in=(a<=i)&(i<b); ENSURE(in,"the reported index is that of an edge"); if(!in) return; long j=closed&&i==gn-1?0:i+1;
  ENSURE(eq(d,at("d",i,j))&eq(s,at("s",i,j))&eq(t,at("t",i,j))&eq(c[0],at("ax",i,j))&eq(c[1],at("ay",i,j))&eq(e[0],at("bx",i,j))&eq(e[1],at("by",i,j)),"the reported points and parameters are those of that edge"); COVER("end"); }
VC_MAIN(segment_polygon_closest){ kernels(); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; proper(true); vc_candidate("min",(void*)cg,"di"); CAND(c)
  sz k; double s,t; P2 c,e; double d=segment_polygon_closest_point(gp,gq,q.get(),k,s,t,c,e,dcmp); check(d,G(gn-1),k,0,gn,true,s,t,c,e); }
VC_MAIN(segment_polyline_closest){ kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; lo=0; proper(false); vc_candidate("min",(void*)cl,"di"); CAND(n)
  sz k; double s,t; P2 c,e; double d=segment_polyline_closest_point(S2{gp,gq},q.get(),k,s,t,c,e,dcmp); check(d,L(gn-2),k,0,gn-1,false,s,t,c,e); }
static RG range(){ lo=vc_index("lo",gn); hi=vc_index("hi",gn); vc_assume(lo<hi); return RG(lo,hi); }
VC_MAIN(subrange_polygon_closest){ kernels(); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; RG r=range(); proper(true); vc_candidate("min",(void*)cl,"di"); CAND(n)
  sz k; double s,t; P2 c,e; double d=segment_polygon_closest_point(gp,gq,r,q.get(),k,s,t,c,e,dcmp); check(d,L(hi-lo-1),k,lo,hi,false,s,t,c,e); }
VC_MAIN(subrange_polyline_closest){ kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; RG r=range(); proper(false); vc_candidate("min",(void*)cl,"di"); CAND(n)
  sz k; double s,t; P2 c,e; double d=segment_polyline_closest_point(gp,gq,r,q.get(),k,s,t,c,e,dcmp); check(d,L(hi-lo-1),k,lo,hi,false,s,t,c,e); }
VC_MAIN(subrange_distance){ kernels(); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; RG r=range(); proper(true); vc_candidate("min",(void*)cl,"di");
  ENSURE(eq(segment_subpolygon_distance_sqrd(gp,gq,r,q.get(),dcmp),L(hi-lo-1)),"distance to part of a polygon is the least over its edges"); ENSURE(eq(segment_subpolyline_distance_sqrd(gp,gq,r,q.as<PL>(),dcmp),L(hi-lo-1)),"distance to part of a polyline is the least over its segments"); COVER("end"); }
