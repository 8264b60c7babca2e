// DEPENDS: C02_distance.cpp
// CONTRACT: point_polygon_distance(_sqrd), point_polyline_distance(_sqrd), point_polygon_closest_point, point_polyline_closest_point - algorithm/distance/point_poly*.hpp (any number of points; point_segment_distance_sqrd and point_segment_closest_point enter by their contracts, proved in C02)
// ASSUMES: consecutive points are distinct (the segment kernels are proved in C02 for proper segments)
// CONTRACT: segment_polygon_distance(_sqrd), segment_polyline_distance(_sqrd) - algorithm/distance/segment_poly*_distance.hpp (any number of points; segment_segment_distance_sqrd enters by its contract, proved in C02)
#include "geo.h"
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
typedef double (*PSD)(const P2&,const P2&,const P2&); typedef P2 (*PSC)(const P2&,const P2&,const P2&);
typedef double (*SSD)(const P2&,const P2&,const P2&,const P2&,const direct_comparison_policy&);
static double* gb; static long gn; static double px,py,qx,qy; static const P2 *ga,*gc;
static P2 V(long i){ return P2{vc_at(gb,i,0,2),vc_at(gb,i,1,2)}; }
// ---- the contracts of the segment kernels
__attribute__((noinline)) static double psd_c(const P2& p,const P2& a,const P2& b){ double r=vc_fn("psd",6,p[0],p[1],a[0],a[1],b[0],b[1]); vc_assume(r>=0); return r; }
__attribute__((noinline)) static P2 psc_c(const P2& p,const P2& a,const P2& b){ ga=&a; gc=&b; double x=vc_fn("cx",6,p[0],p[1],a[0],a[1],b[0],b[1]),y=vc_fn("cy",6,p[0],p[1],a[0],a[1],b[0],b[1]); vc_assume(sq(p[0]-x)+sq(p[1]-y)==psd_c(p,a,b)); return P2{x,y}; }
__attribute__((noinline)) static double ssd_c(const P2& p,const P2& q,const P2& a,const P2& b,const direct_comparison_policy&){ double r=vc_fn("ssd",8,p[0],p[1],q[0],q[1],a[0],a[1],b[0],b[1]); vc_assume(r>=0); return r; }
#ifdef VC_NATIVE
static double d1(long i,long j){ return point_segment_distance_sqrd(P2{px,py},V(i),V(j)); }
static double d2(long i,long j){ return segment_segment_distance_sqrd(P2{px,py},P2{qx,qy},V(i),V(j),dcmp); }
#else
static double d1(long i,long j){ return psd_c(P2{px,py},V(i),V(j)); }
static double d2(long i,long j){ return ssd_c(P2{px,py},P2{qx,qy},V(i),V(j),dcmp); }
#endif
// the kernel contracts hold for proper segments: consecutive points are distinct
static void proper(bool closed){
#ifdef VC_NATIVE
  for(long i=0;i<gn;++i) if(closed||i+1<gn){ P2 a=V(i),b=V((i+1)%gn); vc_assume(a[0]!=b[0]||a[1]!=b[1]); }
#endif
}
static void kernels(){ vc_opt("loops","1"); vc_use_contract((void*)static_cast<PSD>(&point_segment_distance_sqrd<P2,P2,P2>),(void*)&psd_c); vc_use_contract((void*)static_cast<PSC>(&point_segment_closest_point<P2,P2,P2>),(void*)&psc_c);
  vc_use_contract((void*)static_cast<SSD>(&segment_segment_distance_sqrd<P2,P2,P2,P2,direct_comparison_policy>),(void*)&ssd_c); }
// least over the closing edge and the first i edges; least over the first i+1 edges
extern "C" double st1(double a,long j){ return mn(d1(j,j+1),a); } extern "C" double st1b(double a,long j){ return mn(d1(j+1,j+2),a); }
static double G1(long i){ return vc_fold("g1",(void*)st1,d1(gn-1,0),i); } static double L1(long i){ return vc_fold("l1",(void*)st1b,d1(0,1),i); }
extern "C" bool c1(double a,long i){ return a==G1(i); } extern "C" bool c1b(double a,long i){ return a==L1(i-1); }
extern "C" bool w1(double a,long i,long j){ return a==d1(i,j); }
extern "C" double st2(double a,long j){ return mn(d2(j,j+1),a); } extern "C" double st2b(double a,long j){ return mn(d2(j+1,j+2),a); }
static double G2(long i){ return vc_fold("g2",(void*)st2,d2(gn-1,0),i); } static double L2(long i){ return vc_fold("l2",(void*)st2b,d2(0,1),i); }
extern "C" bool c2(double a,long i){ return a==G2(i); } extern "C" bool c2b(double a,long i){ return a==L2(i-1); }
VC_MAIN(point_polygon){ kernels(); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; proper(true); px=R("px"); py=R("py"); vc_candidate("min",(void*)c1,"di");
  double d=point_polygon_distance_sqrd(P2{px,py},q.get()); ENSURE(eq(d,G1(gn-1)),"distance to a polygon is the least over all edges, closing edge included");
  double e=point_polygon_distance(P2{px,py},q.get()); ENSURE(le(0,e)&eq(e*e,G1(gn-1)),"distance to a polygon is the root"); COVER("end"); }
VC_MAIN(point_polyline){ kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; proper(false); px=R("px"); py=R("py"); vc_candidate("min",(void*)c1b,"di");
  double d=point_polyline_distance_sqrd(P2{px,py},q.get()); ENSURE(eq(d,L1(gn-2)),"distance to a polyline is the least over its segments");
  double e=point_polyline_distance(P2{px,py},q.get()); ENSURE(le(0,e)&eq(e*e,L1(gn-2)),"distance to a polyline is the root"); COVER("end"); }
static void edge(P2 const& r,bool closed){ bool on=false;
#ifdef VC_NATIVE
  for(long i=0;i<gn;++i) if(closed||i+1<gn){ P2 a=V(i),b=V((i+1)%gn); if(point_segment_distance_sqrd(r,a,b)<=1e-9*(1+dist2(a,b))) on=true; }
#else
  long i=ga-reinterpret_cast<const P2*>(gb), j=gc-reinterpret_cast<const P2*>(gb); on=(0<=i)&(i<gn)&((j==i+1)|(closed&(j==0)&(i==gn-1)))&(j<gn);
#endif
  ENSURE(on,"the reported closest point lies on one of the edges"); }
VC_MAIN(closest_polygon){ kernels(); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; proper(true); px=R("px"); py=R("py"); vc_candidate("min",(void*)c1,"di"); vc_candidate("at",(void*)w1,"dii");
  P2 r=point_polygon_closest_point(P2{px,py},q.get()); ENSURE(eq(dist2(P2{px,py},r),G1(gn-1)),"the closest point of a polygon is at the least distance"); edge(r,true); COVER("end"); }
VC_MAIN(closest_polyline){ kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; proper(false); px=R("px"); py=R("py"); vc_candidate("min",(void*)c1b,"di"); vc_candidate("at",(void*)w1,"dii");
  P2 r=point_polyline_closest_point(P2{px,py},q.get()); ENSURE(eq(dist2(P2{px,py},r),L1(gn-2)),"the closest point of a polyline is at the least distance"); edge(r,false); COVER("end"); }
VC_MAIN(segment_polygon){ kernels(); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; proper(true); px=R("px"); py=R("py"); qx=R("qx"); qy=R("qy"); vc_candidate("min",(void*)c2,"di"); P2 p{px,py},u{qx,qy};
  ENSURE(eq(segment_polygon_distance_sqrd(p,u,q.get(),dcmp),G2(gn-1)),"distance of a segment to a polygon is the least over all edges");
  double e=segment_polygon_distance(S2{p,u},q.get(),dcmp); ENSURE(le(0,e)&eq(e*e,G2(gn-1)),"distance of a segment to a polygon is the root"); COVER("end"); }
VC_MAIN(segment_polyline){ kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; proper(false); px=R("px"); py=R("py"); qx=R("qx"); qy=R("qy"); vc_candidate("min",(void*)c2b,"di"); P2 p{px,py},u{qx,qy};
  ENSURE(eq(segment_polyline_distance_sqrd(p,u,q.get(),dcmp),L2(gn-2)),"distance of a segment to a polyline is the least over its segments");
  double e=segment_polyline_distance(p,u,q.get(),dcmp); ENSURE(le(0,e)&eq(e*e,L2(gn-2)),"distance of a segment to a polyline is the root"); COVER("end"); }
