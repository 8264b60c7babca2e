// SHAPE: scalar
// CONTRACT: segment_polyline_intersect, segment_polygon_border_intersect, polyline_polyline_intersect, polyline_self_intersection, is_polygon_simple - algorithm/intersection, algorithm/point_sequence (any number of points; segment_segment_intersection enters by its contract, proved in C01)
// CONTRACT: polyline_aabb_intersection, polygon_aabb_intersection - algorithm/intersection (any number of points; segment_aabb_intersection and point_in_polygon enter by their contracts, proved in C09 and C15)
// ASSUMES: for 'is reported not simple only if': the vertices of the polygon are distinct (two equal vertices that are not ends of a common edge make two edges meet that are not neighbours; edges have positive length)
// DEPENDS: C01_segment_segment.cpp
#include "geo.h"
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
using DC=direct_comparison_policy; using sz=std::size_t; using AB=axis_aligned_bounding_box<P2>; using IT=intersection_type;
static double *gb,*ob; static long gn,on,gJ,gI,gS,gS1; static P2 gp,gq;
static P2 V(long i){ return P2{vc_at(gb,i,0,2),vc_at(gb,i,1,2)}; } static P2 U(long i){ return P2{vc_at(ob,i,0,2),vc_at(ob,i,1,2)}; }
// ---- contract of the segment kernel: classification and points, functions of the two segments
static long T(const P2& p,const P2& q,const P2& a,const P2& b){
#ifdef VC_NATIVE
  P2 x[2]; return segment_segment_intersection(p,q,a,b,x,dcmp);
#else
  return vc_fn_int("type",0,3,8,p[0],p[1],q[0],q[1],a[0],a[1],b[0],b[1]);
#endif
}
static double XP(const char* f,int k,int c,const P2& p,const P2& q,const P2& a,const P2& b){
#ifdef VC_NATIVE
  P2 x[2]; segment_segment_intersection(p,q,a,b,x,dcmp); return x[k][c];
#else
  return vc_fn(f,8,p[0],p[1],q[0],q[1],a[0],a[1],b[0],b[1]);
#endif
}
#ifndef VC_NATIVE
static long wi,wj,wt; static bool tagged;
static long id(const P2& p){ return vc_fn_int("id",0,1L<<40,2,p[0],p[1]); }
typedef IT (*SSI)(const P2&,const P2&,const P2&,const P2&,P2*,const DC&);
__attribute__((noinline)) static IT ssi(const P2& p,const P2& q,const P2& a,const P2& b,P2* x,const DC&){ long t=T(p,q,a,b); if(tagged){ wi=id(p); wj=id(a); wt=t; }
  if(x){ x[0]=P2{XP("x0",0,0,p,q,a,b),XP("y0",0,1,p,q,a,b)}; x[1]=P2{XP("x1",1,0,p,q,a,b),XP("y1",1,1,p,q,a,b)}; } return (IT)t; }
static void kernels(){ vc_opt("loops","1"); vc_use_contract((void*)static_cast<SSI>(&segment_segment_intersection<P2,P2,P2,P2,P2,DC>),(void*)static_cast<SSI>(&ssi)); }
#else
static void kernels(){}
#endif
// ---- a visitor that checks each visit and counts the visits of an arbitrary edge gJ; it asks to stop at the edge gS
static long cnt; static bool any,stopped,closed;
static long nx(long i){ return closed&&i==gn-1?0:i+1; } static long edges(){ return closed?gn:gn-1; }
static B xsame(long t,const P2& x1,const P2& x2,const P2& p,const P2& q,const P2& a,const P2& b){ B r=eq(x1[0],XP("x0",0,0,p,q,a,b))&eq(x1[1],XP("y0",0,1,p,q,a,b)); if(t==2) r=r&eq(x2[0],XP("x1",1,0,p,q,a,b))&eq(x2[1],XP("y1",1,1,p,q,a,b)); return r; }
struct Visit{ bool operator()(IT t,sz i_,sz j_,const P2& x1,const P2& x2)const{ long i=(long)i_,j=(long)j_;
  ENSURE(bl(!stopped),"no visit after the visitor asked to stop"); ENSURE(bl((0<=i)&(i<edges())),"each visit names an edge of the figure"); ENSURE(bl(j==nx(i)),"each visit names both ends of the edge");
  long k=T(gp,gq,V(i),V(nx(i))); ENSURE(bl((k!=0)&(k==(long)t)),"each visited edge meets the segment, with its classification"); ENSURE(xsame(k,x1,x2,gp,gq,V(i),V(nx(i))),"each visit reports the common points");
  any=true; if(i==gJ) ++cnt; bool s=i==gS; stopped=s; return s; } };
static bool hitJ(){ return T(gp,gq,V(gJ),V(nx(gJ)))!=0; }
extern "C" bool c_cnt(long c,long i){ return c==(((gJ<i)&hitJ())?1:0); }
extern "C" bool c_any(bool a,bool b){ return a==b; } extern "C" bool c_anyi(long a,long b){ return (a!=0)==(b!=0); }
template<class F> static void visiting(F run){ cnt=0; any=stopped=false; gJ=vc_index("J",edges()); gS=vc_int("S",-1,1L<<40); vc_candidate("cnt",(void*)c_cnt,"ii"); vc_candidate("any",(void*)c_any,"bb"); vc_candidate("anyi",(void*)c_anyi,"ii");
  bool r=run(Visit()); ENSURE(bl(r==any),"an intersection is reported exactly when some edge meets the segment");
  if(stopped){ ENSURE(bl(cnt<=1),"no edge is visited twice"); COVER("stopped"); } else { ENSURE(bl(cnt==(hitJ()?1:0)),"every edge that meets the segment is visited exactly once"); COVER("end"); } }
VC_MAIN(seg_polyline){ kernels(); gp=rp2("px","py"); gq=rp2("qx","qy"); SymSeq<PL> s("v",2); gb=s.b; gn=s.n; closed=false; visiting([&](const Visit& v){ return segment_polyline_intersect(gp,gq,s.get(),v,dcmp); }); }
VC_MAIN(seg_polyline_object){ kernels(); gp=rp2("px","py"); gq=rp2("qx","qy"); SymSeq<PL> s("v",2); gb=s.b; gn=s.n; closed=false; visiting([&](const Visit& v){ return segment_polyline_intersect(S2{gp,gq},s.get(),v,dcmp); }); }
VC_MAIN(seg_polygon_border){ kernels(); gp=rp2("px","py"); gq=rp2("qx","qy"); SymSeq<PG> s("v",3); gb=s.b; gn=s.n; closed=true; visiting([&](const Visit& v){ return segment_polygon_border_intersect(gp,gq,s.get(),v,dcmp); }); }
VC_MAIN(seg_polygon_border_object){ kernels(); gp=rp2("px","py"); gq=rp2("qx","qy"); SymSeq<PG> s("v",3); gb=s.b; gn=s.n; closed=true; visiting([&](const Visit& v){ return segment_polygon_border_intersect(S2{gp,gq},s.get(),v,dcmp); }); }
// ---- two polylines, and a polyline with itself
struct Visit2{ bool operator()(IT t,sz i1,sz j1,sz i2,sz j2,const P2& x1,const P2& x2)const{ long i=(long)i1,j=(long)i2;
  ENSURE(bl(!stopped),"no visit after the visitor asked to stop"); ENSURE(bl((0<=i)&(i+1<gn)&(0<=j)&(j+1<on)&((long)j1==i+1)&((long)j2==j+1)),"each visit names a segment of either polyline");
  long k=T(V(i),V(i+1),U(j),U(j+1)); ENSURE(bl((k!=0)&(k==(long)t)),"the visited segments meet, with this classification"); ENSURE(xsame(k,x1,x2,V(i),V(i+1),U(j),U(j+1)),"each visit reports the common points");
  any=true; if((i==gI)&(j==gJ)) ++cnt; bool s=(i==gS1)&(j==gS); stopped=s; return s; } };
static bool hitIJ(){ return T(V(gI),V(gI+1),U(gJ),U(gJ+1))!=0; }
extern "C" bool c_cnt1(long c,long i){ return c==(((gI<i)&hitIJ())?1:0); } extern "C" bool c_cnt2(long c,long i,long j){ return c==((((gI<i)|((gI==i)&(gJ<j)))&hitIJ())?1:0); }
VC_MAIN(two_polylines){ kernels(); vc_opt("loops","cut"); SymSeq<PL> s("v",2); gb=s.b; gn=s.n; on=vc_size("m",2); ob=vc_array("w",on,2); struct{ const double* b; const double* e; const double* c; } o{ob,ob+2*on,ob+2*on};
  cnt=0; any=stopped=false; gI=vc_index("I",gn-1); gJ=vc_index("J",on-1); gS1=vc_int("S1",-1,1L<<40); gS=vc_int("S",-1,1L<<40); vc_candidate("cnt1",(void*)c_cnt1,"ii"); vc_candidate("cnt2",(void*)c_cnt2,"ioi"); vc_candidate("any",(void*)c_any,"bb"); vc_candidate("anyi",(void*)c_anyi,"ii");
  bool r=polyline_polyline_intersect(s.get(),reinterpret_cast<const PL&>(o),Visit2(),dcmp); ENSURE(bl(r==any),"an intersection is reported exactly when some two segments meet");
  if(stopped){ ENSURE(bl(cnt<=1),"no pair is visited twice"); COVER("stopped"); } else { ENSURE(bl(cnt==(hitIJ()?1:0)),"every pair of segments that meet is visited exactly once"); COVER("end"); } }
struct VisitS{ void operator()(sz i_,sz j_,IT t,const P2& x1,const P2& x2)const{ long i=(long)i_,j=(long)j_;
  ENSURE(bl((0<=i)&(i<j)&(j+1<gn)),"each visit names two segments of the polyline"); long k=T(V(i),V(i+1),V(j),V(j+1)); ENSURE(bl((k==(long)t)&((j==i+1)?k==2:k!=0)),"the visited segments meet (neighbours: overlap), with this classification"); ENSURE(xsame(k,x1,x2,V(i),V(i+1),V(j),V(j+1)),"each visit reports the common points");
  any=true; if((i==gI)&(j==gJ)) ++cnt; } };
static bool selfIJ(){ long k=T(V(gI),V(gI+1),V(gJ),V(gJ+1)); return (gI<gJ)&((gJ==gI+1)?k==2:k!=0); }
extern "C" bool c_scnt1(long c,long i){ return c==(((gI<i)&selfIJ())?1:0); } extern "C" bool c_scnt2(long c,long i,long j){ return c==((((gI<i)|((gI==i)&(gJ<j)))&selfIJ())?1:0); }
VC_MAIN(self){ kernels(); SymSeq<PL> s("v",2); gb=s.b; gn=s.n; cnt=0; any=stopped=false; gI=vc_index("I",gn-1); gJ=vc_index("J",gn-1); vc_candidate("cnt1",(void*)c_scnt1,"ii"); vc_candidate("cnt2",(void*)c_scnt2,"ioi"); vc_candidate("any",(void*)c_any,"bb"); vc_candidate("anyi",(void*)c_anyi,"ii");
  bool r=polyline_self_intersection(s.get(),VisitS(),dcmp); ENSURE(bl(r==any),"a self intersection is reported exactly when some two segments meet"); ENSURE(bl(cnt==(selfIJ()?1:0)),"every pair of segments that meet is visited exactly once"); COVER("end"); }
// ---- simple polygons
static bool adj(long i,long j){ return (i==j)|(nx(i)==j)|(nx(j)==i); }
extern "C" bool c_s1(long i){ return !(gI<i)|(T(V(gI),V(nx(gI)),V(gJ),V(nx(gJ)))==0); } extern "C" bool c_s2(long i,long j){ return !((gI<i)|((gI==i)&(gJ<j)))|(T(V(gI),V(nx(gI)),V(gJ),V(nx(gJ)))==0); }
VC_MAIN(simple){ kernels(); SymSeq<PG> s("v",3); gb=s.b; gn=s.n; closed=true; gI=vc_index("I",gn); gJ=vc_index("J",gn); vc_assume(gI<gJ); vc_assume(!adj(gI,gJ)); vc_candidate("s1",(void*)c_s1,"i"); vc_candidate("s2",(void*)c_s2,"oi");
  if(is_polygon_simple(s.get(),dcmp)) ENSURE(bl(T(V(gI),V(nx(gI)),V(gJ),V(nx(gJ)))==0),"a polygon is reported simple only if no two edges meet that are not neighbours"); else COVER("not simple"); COVER("end"); }
// a view of the polygon whose points are told apart
struct Tagged{};
namespace geometrix{ template<> struct point_sequence_traits<Tagged>{ typedef P2 point_type; static std::size_t size(const Tagged&){ return (std::size_t)gn; } static P2 get_point(const Tagged&,std::size_t i){ P2 p=V((long)i);
#ifndef VC_NATIVE
  vc_assume(id(p)==(long)i);
#endif
  return p; } }; }
VC_MAIN(not_simple){ kernels(); SymSeq<PG> s("v",3); gb=s.b; gn=s.n; closed=true;
#ifndef VC_NATIVE
  tagged=true; wi=wj=wt=0;
  if(!is_polygon_simple(Tagged(),dcmp)) ENSURE(bl((wt!=0)&!adj(wi,wj)),"a polygon is reported not simple only if two edges meet that are not neighbours"); else COVER("simple"); COVER("end"); 
#else
  for(long i=0;i<gn;++i) for(long j=i+1;j<gn;++j){ vc_assume(V(i)[0]!=V(j)[0]||V(i)[1]!=V(j)[1]); } bool w=false; for(long i=0;i<gn;++i) for(long j=i+1;j<gn;++j) if(!adj(i,j)&&T(V(i),V(nx(i)),V(j),V(nx(j)))) w=true;
  ENSURE(bl(is_polygon_simple(Tagged(),dcmp)==!w),"a polygon is reported not simple only if two edges meet that are not neighbours");
#endif
}
// ---- boxes
static AB* gbox; static bool H(const P2& p,const P2& q){
#ifdef VC_NATIVE
  return segment_aabb_intersection(p,q,*gbox);
#else
  return vc_fn_int("hit",0,1,4,p[0],p[1],q[0],q[1])!=0;
#endif
}
static bool IN(const P2& p,const PG& g){
#ifdef VC_NATIVE
  return point_in_polygon(p,g);
#else
  return vc_fn_int("in",0,1,2,p[0],p[1])!=0;
#endif
}
#ifndef VC_NATIVE
__attribute__((noinline)) static bool shit(const P2& p,const P2& q,const AB& b){ ENSURE(bl(&b==gbox),"the box handed on is the one asked for"); return H(p,q); }
__attribute__((noinline)) static bool pin(const P2& p,const PG& g){ return IN(p,g); }
#endif
extern "C" double st_hit(double a,long m){ return sel(bl(H(V(gn-2-m),V(gn-1-m))),1,a); }     // is some of the edges from gn-2-m on hit
static double S(long i){ return vc_fold("hit",(void*)st_hit,0,gn-1-i); }
static bool step(long i){ return (i>gn-2)||(S(i)==sel(bl(H(V(i),V(i+1))),1,S(i+1))); }   // the definition of S, named in the invariant
static bool none_before(long i){ return (S(i)==S(0))&((i<2)||(S(1)==S(0)))&((i<3)||(S(2)==S(0)))&((i<4)||(S(3)==S(0)))&((i<1)||(S(i-1)==S(0)))&step(i); }
extern "C" bool c_suf(long i){ return (i<0)||(i>gn-1)||none_before(i); } extern "C" bool c_suf1(long i){ return (i<1)||(i>gn)||none_before(i-1); } extern "C" bool c_close(long i){ return (i<1)|!H(V(gn-1),V(0)); } extern "C" bool c_close2(long i){ return (i<gn)|!H(V(gn-1),V(0)); }
static AB box(){ double x=R("xl"),y=R("yl"),w=Rnn("w"),h=Rnn("h"); return AB{P2{x,y},P2{x+w,y+h}}; }
template<class F> static void boxed(bool cl,F extra_run){ vc_candidate("suf",(void*)c_suf,"i"); vc_candidate("suf1",(void*)c_suf1,"i"); if(cl){ vc_candidate("close",(void*)c_close,"i"); vc_candidate("close2",(void*)c_close2,"i"); } extra_run(); }
VC_MAIN(polyline_box){ kernels(); AB b=box(); gbox=&b; SymSeq<PL> s("v",2); gb=s.b; gn=s.n;
#ifndef VC_NATIVE
  vc_use_contract((void*)static_cast<bool(*)(const P2&,const P2&,const AB&)>(&segment_aabb_intersection<P2,P2,AB>),(void*)&shit);
#endif
  boxed(false,[&]{ bool r=polyline_aabb_intersection(s.get(),b); ENSURE(eq(r?1.:0.,S(0)),"a polyline meets a box exactly when one of its segments does"); COVER("end"); }); }
VC_MAIN(polygon_box){ kernels(); AB b=box(); gbox=&b; SymSeq<PG> s("v",3); gb=s.b; gn=s.n;
#ifndef VC_NATIVE
  vc_use_contract((void*)static_cast<bool(*)(const P2&,const P2&,const AB&)>(&segment_aabb_intersection<P2,P2,AB>),(void*)&shit); vc_use_contract((void*)static_cast<bool(*)(const P2&,const PG&)>(&point_in_polygon<P2,PG>),(void*)&pin);
#endif
  double xl=b.get_lower_bound()[0],yl=b.get_lower_bound()[1],xh=b.get_upper_bound()[0],yh=b.get_upper_bound()[1];
  boxed(true,[&]{ bool r=polygon_aabb_intersection(s.get(),b); bool c=IN(P2{xl,yl},s.get())|IN(P2{xh,yl},s.get())|IN(P2{xh,yh},s.get())|IN(P2{xl,yh},s.get()); 
    ENSURE(bl(r==(c|H(V(gn-1),V(0))|(S(0)!=0))),"a polygon meets a box exactly when a corner of the box is inside it or one of its edges meets the box"); COVER("end"); }); }
