// SHAPE: scalar
// DEPENDS: C02_distance.cpp
// ASSUMES: in the folds of total curvature, points up to two apart are distinct
// CONTRACT: point_polyline_orientation (nearest segment given, and searched) - algorithm/point_sequence/point_polyline_orientation.hpp (any number of points)
// CONTRACT: polyline_signed_curvature_at_index, polyline_total_curvature_over_index, polyline_total_curvature, polyline_total_absolute_curvature - algorithm/point_sequence/curvature.hpp (any number of points)
#include "geo.h"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
static double* gb; static long gn,gJ; static double px,py;
static double X(long i){ return vc_at(gb,i,0,2); } static double Y(long i){ return vc_at(gb,i,1,2); }
using DC=direct_comparison_policy;
static P2 pt(long i){ return P2{X(i),Y(i)}; }
static double dot(const P2& o,const P2& a,const P2& b){ return (a[0]-o[0])*(b[0]-o[0])+(a[1]-o[1])*(b[1]-o[1]); }
static B orients(orientation_type o,double A){ return iff(lt(0,A),bl(o==oriented_left))&iff(lt(A,0),bl(o==oriented_right))&iff(eq(A,0),bl(o==oriented_collinear)); }
struct Side{ P2 p; long k; P2 a,b; SymSeq<PL> q; Side(long lo):q("v",lo){ gb=q.b; gn=q.n; p=rp2("px","py"); k=vc_index("k",gn-1); a=pt(k); b=pt(k+1); REQUIRE(ne(a[0],b[0])|ne(a[1],b[1])); } 
  orientation_type run(){ double m=Rpos("m"); return point_polyline_orientation(p,q.get(),m,(sz)k,dcmp); } using sz=std::size_t; };
VC_MAIN(side_interior){ Side s(2); double t=dot(s.a,s.p,s.b); REQUIRE(lt(0,t)&lt(t,dist2(s.a,s.b))); ENSURE(orients(s.run(),area2(s.a,s.b,s.p)),"a point nearest to the inside of a segment is on the side of that segment"); COVER("end"); }
// nearest to a bend: left of the polyline exactly when left of both segments at a left bend, and of either at a right bend
static B bend(orientation_type o,double T,double A1,double A2){ B l=T>0? lt(0,A1)&lt(0,A2) : !(lt(A1,0)&lt(A2,0)); return iff(l,bl(o==oriented_left))&iff(!l,bl(o==oriented_right)); }
VC_MAIN(side_start){ Side s(2); REQUIRE(le(dot(s.a,s.p,s.b),0)); auto o=s.run();
  if(s.k==0){ ENSURE(orients(o,area2(s.a,s.b,s.p)),"a point nearest to the first point is on the side of the first segment"); COVER("first"); }
  else { P2 h=pt(s.k-1); REQUIRE(ne(h[0],s.a[0])|ne(h[1],s.a[1])); REQUIRE(ne(s.p[0],s.a[0])|ne(s.p[1],s.a[1])); REQUIRE(le(dot(s.a,s.p,h),0)); double T=area2(h,s.a,s.b),A1=area2(h,s.a,s.p),A2=area2(s.a,s.b,s.p);
    if(T==0) ENSURE(orients(o,A2),"at a straight joint the side is that of the segment"); else ENSURE(bend(o,T,A1,A2),"at a bend the side is that of the wedge the point is in (start of the segment)"); COVER("bend"); } }
VC_MAIN(side_end){ Side s(2); REQUIRE(le(dist2(s.a,s.b),dot(s.a,s.p,s.b))); auto o=s.run();
  if(s.k==gn-2){ ENSURE(orients(o,area2(s.a,s.b,s.p)),"a point nearest to the last point is on the side of the last segment"); COVER("last"); }
  else { P2 c=pt(s.k+2); REQUIRE(ne(c[0],s.b[0])|ne(c[1],s.b[1])); REQUIRE(ne(s.p[0],s.b[0])|ne(s.p[1],s.b[1])); REQUIRE(le(dot(s.b,s.p,c),0)); double T=area2(s.a,s.b,c),A1=area2(s.a,s.b,s.p),A2=area2(s.b,c,s.p);
    if(T==0) ENSURE(orients(o,A1),"at a straight joint the side is that of the segment (end)"); else ENSURE(bend(o,T,A1,A2),"at a bend the side is that of the wedge the point is in (end of the segment)"); COVER("bend"); } }
VC_MAIN(side_on){ Side s(2); ENSURE(bl(point_polyline_orientation(s.p,s.q.get(),0.,(std::size_t)s.k,dcmp)==oriented_collinear),"a point at distance zero is on the polyline"); COVER("end"); }
// the overload that searches the nearest segment hands the first nearest one to the one above
static const PL* gq; static double gm; static long gk;
#ifdef VC_NATIVE
static double PS(long i){ return point_segment_distance_sqrd(P2{px,py},pt(i),pt(i+1)); }
static bool called(orientation_type o){ long k=0; for(long i=1;i<gn-1;++i) if(PS(i)<PS(k)) k=i; gk=k; gm=PS(k); return o==point_polyline_orientation(P2{px,py},*gq,gm,(std::size_t)k,dcmp); }
static void kernels(){}
#else
static bool bad;
static double PS(long i){ return vc_fn("ps",4,X(i),Y(i),X(i+1),Y(i+1)); }
__attribute__((noinline)) static double c_ps(const P2& c,const P2& a,const P2& b){ if(c[0]!=px||c[1]!=py) return vc_fn("off",1,2.); double r=vc_fn("ps",4,a[0],a[1],b[0],b[1]); vc_assume(r>=0); return r; }
__attribute__((noinline)) static orientation_type c_side(const P2& p,const PL& q,const double& m,std::size_t k,const DC&){ gm=m; gk=(long)k; bad=p[0]!=px||p[1]!=py||&q!=gq; return oriented_left; }
static bool called(orientation_type o){ return !bad&&o==oriented_left; }
typedef double (*PSD)(const P2&,const P2&,const P2&); typedef orientation_type (*SIDE)(const P2&,const PL&,const double&,std::size_t,const DC&);
static void kernels(){ vc_use_contract((void*)static_cast<PSD>(&point_segment_distance_sqrd<P2,P2,P2>),(void*)&c_ps); vc_use_contract((void*)static_cast<SIDE>(&point_polyline_orientation<P2,PL,double,DC>),(void*)&c_side); }
#endif
extern "C" bool c_near(double d,long k,long i){ if(i<1) return true; return (0<=k)&(k<i)&&(d==PS(k))&&(!(gJ<i)||(d<=PS(gJ)))&&(!(gJ<k)||(d<PS(gJ))); }
VC_MAIN(side_search){ vc_opt("loops","1"); kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; gq=&q.get(); px=R("px"); py=R("py"); gJ=vc_index("J",gn-1); vc_candidate("near",(void*)c_near,"dii");
  auto o=point_polyline_orientation(P2{px,py},q.get(),dcmp); ENSURE(bl(called(o)),"the side is the one at the nearest segment"); ENSURE(bl(0<=gk&&gk<gn-1),"the nearest segment is one of the polyline"); ENSURE(eq(gm,PS(gk))&le(gm,PS(gJ)),"no segment is nearer than the one used"); if(gJ<gk) ENSURE(lt(gm,PS(gJ)),"the first of the nearest segments is used"); COVER("end"); }
// curvature
static double d2(long i,long j){ return sq(X(i)-X(j))+sq(Y(i)-Y(j)); } static double cr(long i){ return (X(i+1)-X(i))*(Y(i+2)-Y(i+1))-(Y(i+1)-Y(i))*(X(i+2)-X(i+1)); }
VC_MAIN(curvature_at){ SymSeq<PL> q("v",1); gb=q.b; gn=q.n; long j=vc_index("j",gn); double k=polyline_signed_curvature_at_index(q.get(),(std::size_t)j),w=polyline_total_curvature_over_index(q.get(),(std::size_t)j);
  if(j==0||j==gn-1){ ENSURE(eq(k,0)&eq(w,0),"no curvature at the ends"); COVER("ends"); }
  else { double a=std::sqrt(d2(j-1,j)),b=std::sqrt(d2(j,j+1)),c=std::sqrt(d2(j-1,j+1)); REQUIRE(ne(a,0)); REQUIRE(ne(b,0)); REQUIRE(ne(c,0)); ENSURE(eq(k*a*b*c,2*cr(j-1)),"the curvature is that of the circle through the three points, positive for a left turn"); ENSURE(eq(2*w,(a+b)*ab(k)),"the absolute curvature over a point is weighted by half the adjacent lengths"); COVER("inner"); } }
#ifdef VC_NATIVE
static double dq(long i,long j){ return d2(i,j); }
static void dist(){}
#else
static double dq(long i,long j){ return vc_fn("dq",1,d2(i,j)); }
__attribute__((noinline)) static double c_d2(const P2& a,const P2& b){ double r=vc_fn("dq",1,sq(a[0]-b[0])+sq(a[1]-b[1])); vc_assume(r>0); return r; }
typedef double (*PPS)(const P2&,const P2&); static void dist(){ vc_use_contract((void*)static_cast<PPS>(&point_point_distance_sqrd<P2,P2>),(void*)&c_d2); }
#endif
static double kap(long i,double c){ return 2.0*c/std::sqrt(dq(i+1,i)*dq(i+1,i+2)*dq(i,i+2)); }
static void far(long i){ vc_assume(dq(i+1,i)>0); vc_assume(dq(i+1,i+2)>0); vc_assume(dq(i,i+2)>0); }
extern "C" double st_tc(double a,long i){ far(i); return a+0.5*(std::sqrt(dq(i+1,i))+std::sqrt(dq(i+1,i+2)))*kap(i,cr(i)); } extern "C" double st_ta(double a,long i){ far(i); return a+0.5*(std::sqrt(dq(i+1,i))+std::sqrt(dq(i+1,i+2)))*kap(i,std::fabs(cr(i))); }
static double TC(long i){ return vc_fold("tc",(void*)st_tc,0,i); } static double TA(long i){ return vc_fold("ta",(void*)st_ta,0,i); }
extern "C" bool c_tc(double a,long i){ return a==TC(i); } extern "C" bool c_ta(double a,long i){ return a==TA(i); }
extern "C" bool c_vx(double a,long i){ return a==X(i)-X(i-1); } extern "C" bool c_vy(double a,long i){ return a==Y(i)-Y(i-1); } extern "C" bool c_dq(double a,long i){ return a==dq(i,i-1); }
extern "C" bool c_pos(double a){ return a>0; }
static void turn(SymSeq<PL>& q){ dist(); vc_opt("loops","1"); gb=q.b; gn=q.n; vc_candidate("vx",(void*)c_vx,"di"); vc_candidate("vy",(void*)c_vy,"di"); vc_candidate("pos",(void*)c_pos,"d"); vc_candidate("d2",(void*)c_dq,"di"); }
VC_MAIN(total_curvature){ SymSeq<PL> q("v",3); turn(q); vc_candidate("tc",(void*)c_tc,"di"); double t=polyline_total_curvature(q.get()); ENSURE(eq(t,TC(gn-2)),"the total curvature is the sum of the curvatures at the inner points, weighted by half the adjacent lengths"); COVER("end"); }
VC_MAIN(total_absolute_curvature){ SymSeq<PL> q("v",3); turn(q); vc_candidate("ta",(void*)c_ta,"di"); double t=polyline_total_absolute_curvature(q.get()); ENSURE(eq(t,TA(gn-2)),"the total absolute curvature sums the magnitudes"); COVER("end"); }
VC_MAIN(short_curvature){ SymSeq<PL> q("v",1); gb=q.b; gn=q.n; REQUIRE(bl(gn<=2)); ENSURE(eq(polyline_total_curvature(q.get()),0)&eq(polyline_total_absolute_curvature(q.get()),0),"no curvature with fewer than three points"); COVER("end"); }
