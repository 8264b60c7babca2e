// SHAPE: scalar
// DEPENDS: C02_distance.cpp
// DEPENDS: C03_orientation.cpp
// CONTRACT: point_on_polyline_length_characteristics - algorithm/point_sequence/length.hpp (any number of points)
// CONTRACT: polyline_point_at_position - algorithm/point_sequence/polyline_split.hpp (any number of points)
// CONTRACT: find_containing_polygon_border_segment, find_closest_polygon_border_segment, find_containing_or_closest_polygon_border_segment - algorithm/point_sequence/find_subsequence.hpp (any number of points)
#include "geo.h"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
static double* gb; static long gn,gJ; static double px,py;
static double X(long i){ return vc_at(gb,i,0,2); } static double Y(long i){ return vc_at(gb,i,1,2); }
using DC=direct_comparison_policy; using sz=std::size_t; static const sz NONE=(std::numeric_limits<std::size_t>::max)();
#ifdef VC_NATIVE
static double dd(double a,double b,double c,double d){ return std::sqrt(sq(a-c)+sq(b-d)); }
static bool on(double a,double b,double c,double d){ return is_between(P2{a,b},P2{c,d},P2{px,py},true,dcmp); }
static double ps(double a,double b,double c,double d){ return point_segment_distance_sqrd(P2{px,py},P2{a,b},P2{c,d}); }
static void kernels(){}
#else
// distances, betweenness and point/segment distances enter by their contracts (proved in C02 and C03)
static double dd(double a,double b,double c,double d){ return vc_fn("dist",4,a,b,c,d); } 
static bool on(double a,double b,double c,double d){ return vc_fn("on",4,a,b,c,d)>0; }
static double ps(double a,double b,double c,double d){ double r=vc_fn("ps",4,a,b,c,d); vc_assume(r>=0); return r; }
static double ps0(double a,double b,double c,double d){ return vc_fn("ps",4,a,b,c,d); }
__attribute__((noinline)) static double c_dd(const P2& a,const P2& b){ return dd(a[0],a[1],b[0],b[1]); }
__attribute__((noinline)) static bool c_on(const P2& a,const P2& b,const P2& c,bool incl,const DC&,void*){ if(!incl) return vc_fn("off",1,0.)>0; if(c[0]!=px||c[1]!=py) return vc_fn("off",1,1.)>0; return on(a[0],a[1],b[0],b[1]); }
__attribute__((noinline)) static double c_ps(const P2& c,const P2& a,const P2& b){ if(c[0]!=px||c[1]!=py) return vc_fn("off",1,2.); return ps(a[0],a[1],b[0],b[1]); }
typedef double (*PPD)(const P2&,const P2&); typedef bool (*BTW)(const P2&,const P2&,const P2&,bool,const DC&,void*); typedef double (*PSD)(const P2&,const P2&,const P2&);
static void kernels(){ vc_use_contract((void*)static_cast<PPD>(&point_point_distance<P2,P2>),(void*)&c_dd); vc_use_contract((void*)static_cast<BTW>(&is_between<P2,P2,P2,DC>),(void*)&c_on); vc_use_contract((void*)static_cast<PSD>(&point_segment_distance_sqrd<P2,P2,P2>),(void*)&c_ps); }
#endif
static long nx(long i){ return i+1<gn?i+1:0; }
static double D(long i,long j){ return dd(X(i),Y(i),X(j),Y(j)); }
static bool S(long i){ return on(X(i),Y(i),X(nx(i)),Y(nx(i))); }            // the point is on edge i
#ifdef VC_NATIVE
static double PS(long i){ return ps(X(i),Y(i),X(nx(i)),Y(nx(i))); }
#else
static double PS(long i){ return ps0(X(i),Y(i),X(nx(i)),Y(nx(i))); }         // squared distance of the point to edge i
#endif
extern "C" double st_len(double a,long i){ return a+D(i,i+1); } static double L(long i){ return vc_fold("len",(void*)st_len,0,i); }
static double F(long i){ return L(i)+dd(X(i),Y(i),px,py); } static double T(long i){ return dd(px,py,X(i+1),Y(i+1))-L(i+1); }
static bool SL(long i){ return on(X(i),Y(i),X(i+1),Y(i+1)); }
static bool first(long k){ return (0<=k)&&S(k)&&(!(gJ<k)||!S(gJ)); } static bool firstl(long k){ return (0<=k)&SL(k)&(!(gJ<k)|!SL(gJ)); }
extern "C" bool c_idx(long k,long i){ bool n=(k==-1)&(!(gJ<i)|!SL(gJ)); return n|((k<i)&firstl(k)); }
extern "C" bool c_idx0(long i){ return !(gJ<i)|!SL(gJ); } extern "C" bool c_len0(double a,long i){ return a==L(i); }
extern "C" bool c_len(double a,long k,long i){ return ((k==-1)&(a==L(i)))|((k!=-1)&(a==F(k))); }
extern "C" bool c_post(double a,long k,long i){ return ((k==-1)&(a==0))|((k!=-1)&(a==T(k)+L(i))); }
VC_MAIN(characteristics){ vc_opt("loops","1"); kernels(); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; px=R("px"); py=R("py"); gJ=vc_index("J",gn-1); vc_candidate("idx",(void*)c_idx,"ii"); vc_candidate("idx0",(void*)c_idx0,"i"); vc_candidate("len0",(void*)c_len0,"di"); vc_candidate("len",(void*)c_len,"dii"); vc_candidate("post",(void*)c_post,"dii");
  auto r=point_on_polyline_length_characteristics(q.get(),P2{px,py},dcmp); double a=std::get<0>(r).value(),b=std::get<1>(r).value(); sz k=std::get<2>(r).value();
  if(k==NONE){ ENSURE(bl(!SL(gJ)),"no segment is reported only if the point is on none"); ENSURE(eq(a,L(gn-1))&eq(b,0),"the whole length precedes a point that is on no segment"); }
  else { ENSURE(bl((long)k<gn-1&&firstl((long)k)),"the reported segment is the first that holds the point"); ENSURE(eq(a,F((long)k)),"distance from the start along the polyline"); ENSURE(eq(b,T((long)k)+L(gn-1)),"distance to the end along the polyline"); } COVER("end"); }
// find on polygon borders
extern "C" bool c_none(long i){ return !(gJ<i)||!S(gJ); }
extern "C" bool c_cyc(long j,long i){ return (i==gn)|((j<gn)&((j==i+1)|((j==0)&(i+1==gn)))); }
extern "C" bool c_best(double d,long k,long i){ if(i<1) return true; return (0<=k)&(k<i)&&(d==PS(k))&&(!(gJ<i)||(d<=PS(gJ)))&&(!(gJ<k)||(d<PS(gJ))); }
static void border(SymSeq<PG>& q){ kernels(); gb=q.b; gn=q.n; px=R("px"); py=R("py"); gJ=vc_index("J",gn); vc_candidate("none",(void*)c_none,"i"); vc_candidate("best",(void*)c_best,"dii"); vc_candidate("cyc",(void*)c_cyc,"ii"); }
VC_MAIN(containing){ vc_opt("loops","1"); SymSeq<PG> q("v",3); border(q); auto r=find_containing_polygon_border_segment(q.get(),P2{px,py},dcmp); if(r) ENSURE(bl((long)*r<gn&&first((long)*r)),"the edge found is the first that holds the point, closing edge included"); else ENSURE(bl(!S(gJ)),"none is found only if no edge holds the point"); COVER("end"); }
VC_MAIN(closest){ vc_opt("loops","1"); SymSeq<PG> q("v",3); border(q); long r=(long)find_closest_polygon_border_segment(q.get(),P2{px,py}); ENSURE(bl(0<=r&&r<gn),"some edge is closest"); ENSURE(le(PS(r),PS(gJ)),"no edge is closer than the one reported, closing edge included"); COVER("end"); }
VC_MAIN(containing_or_closest){ vc_opt("loops","1"); SymSeq<PG> q("v",3); border(q); long r=(long)find_containing_or_closest_polygon_border_segment(q.get(),P2{px,py},dcmp); ENSURE(bl(0<=r&&r<gn),"some edge is reported"); if(S(r)) ENSURE(bl(!(gJ<r)||!S(gJ)),"the edge reported is the first that holds the point"); else ENSURE(bl(!S(gJ))&le(PS(r),PS(gJ)),"if no edge holds the point, none is closer than the one reported"); COVER("end"); }
// position at a length
static double DR(long i){ return std::sqrt(sq(X(i)-X(i+1))+sq(Y(i)-Y(i+1))); } extern "C" double st_lr(double a,long i){ return a+DR(i); } static double LR(long i){ return vc_fold("lenr",(void*)st_lr,0,i); }
static double gpos; extern "C" bool c_at(double a,long i){ return (a==LR(i))&((i<1)|(a<=gpos)); }
VC_MAIN(position){ vc_opt("loops","1"); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; double s=R("pos"); gpos=s; vc_candidate("at",(void*)c_at,"di");
  auto r=polyline_point_at_position(q.get(),s); long k=(long)std::get<0>(r); bool has=!!std::get<1>(r); FAR(LR(k),s); FAR(LR(k+1),s); FAR(DR(k),0);
  ENSURE(bl(0<=k&&k<gn-1),"a segment of the polyline is reported"); ENSURE(bl(k==0)|le(LR(k),s),"the segment does not start beyond the position"); ENSURE(bl(k==gn-2)|lt(s,LR(k+1)),"the segment ends beyond the position, unless it is the last");
  ENSURE(iff(bl(has),lt(LR(k),s)&lt(s,LR(k+1))),"a point is reported exactly when the position falls strictly inside the segment");
  if(has){ P2 p=*std::get<1>(r); double u=s-LR(k),d=DR(k); ENSURE(eq(p[0]*d,X(k)*d+u*(X(k+1)-X(k)))&eq(p[1]*d,Y(k)*d+u*(Y(k+1)-Y(k))),"the point is the one at the remaining distance along the segment"); } COVER("end"); }
