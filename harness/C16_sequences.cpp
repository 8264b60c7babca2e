// CONTRACT: point_sequences_equal, polygons_equal, polygon_polygon_offset, is_point_concave, next_index, prev_index - primitive/point_sequence_utilities.hpp (any number of points)
// DEPENDS: C02_distance.cpp
// DEPENDS: C06_vectors.cpp
// CONTRACT: are_polylines_congruent, are_polygons_congruent - algorithm/point_sequence/is_congruent.hpp (any number of points)
#include "geo.h"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/point_sequence_traits.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
using POL=absolute_tolerance_comparison_policy<double>;
static double *gb,*ob,*eb; static long gn,on,gJ,off; static double tl,rc_,rs_,tx,ty;
static double X(long i){ return vc_at(gb,i,0,2); } static double Y(long i){ return vc_at(gb,i,1,2); }
// a second sequence over its own arbitrary points
struct Other{ const double* b; const double* e; const double* c; const PG& get()const{ return reinterpret_cast<const PG&>(*this); } };
static Other other(long n){ Other o; on=n; ob=vc_array("w",n,2); o.b=ob; o.e=o.c=ob+2*n; return o; }
static double U(long i){ return vc_at(ob,i,0,2); } static double W(long i){ return vc_at(ob,i,1,2); }
// views: the first sequence with every coordinate moved by at most the tolerance and started at another vertex; the first sequence moved rigidly
#ifdef VC_NATIVE
static double cl(double e){ return e<-tl?-tl:(tl<e?tl:e); }
#else
static double cl(double e){ vc_assume((-tl<=e)&(e<=tl)); return e; }
#endif

static long back(long j){ long k=j-off; return k<0?k+gn:k; } static long fwd(long j){ long k=j+off; return k<gn?k:k-gn; }
struct Near{}; struct Moved{};
namespace geometrix{
template<> struct point_sequence_traits<Near>{ typedef P2 point_type; static std::size_t size(const Near&){ return (std::size_t)gn; } static P2 get_point(const Near&,std::size_t j){ long i=back((long)j); return P2{X(i)+cl(vc_at(eb,i,0,2)),Y(i)+cl(vc_at(eb,i,1,2))}; } };
template<> struct point_sequence_traits<Moved>{ typedef P2 point_type; static std::size_t size(const Moved&){ return (std::size_t)gn; } static P2 get_point(const Moved&,std::size_t j){ long i=(long)j; return P2{rc_*X(i)-rs_*Y(i)+tx,rs_*X(i)+rc_*Y(i)+ty}; } };
}
static B eqp(long i,long j){ return le(ab(X(i)-U(j)),tl)&le(ab(Y(i)-W(j)),tl); }
extern "C" bool c_eq(long i){ return !(gJ<i)|((ab(X(gJ)-U(gJ))<=tl)&(ab(Y(gJ)-W(gJ))<=tl)); }
extern "C" bool c_eqo(long i){ return !(gJ<i)|((ab(X(gJ)-U(fwd(gJ)))<=tl)&(ab(Y(gJ)-W(fwd(gJ)))<=tl)); }
extern "C" bool c_no(long i){ return !(gJ<i)|!((ab(X(0)-U(gJ))<=tl)&(ab(Y(0)-W(gJ))<=tl)); }
VC_MAIN(equal){ vc_opt("loops","1"); SymSeq<PG> q("v",1); gb=q.b; gn=q.n; tl=Rpos("tol"); Other o=other(vc_size("m",1)); gJ=vc_index("J",gn); vc_candidate("eq",(void*)c_eq,"i");
  bool r=point_sequences_equal(q.get(),o.get(),POL(tl)); if(r) ENSURE(bl(gn==on)&eqp(gJ,gJ),"sequences reported equal have as many points and agree within the tolerance at every index"); else COVER("unequal"); COVER("end"); }
VC_MAIN(equal_complete){ vc_opt("loops","1"); SymSeq<PG> q("v",1); gb=q.b; gn=q.n; tl=Rpos("tol"); eb=vc_array("e",gn,2); off=0;
  ENSURE(bl(point_sequences_equal(q.get(),Near(),POL(tl))),"sequences that agree within the tolerance at every index are reported equal"); COVER("end"); }
VC_MAIN(polygons){ vc_opt("loops","1"); SymSeq<PG> q("v",1); gb=q.b; gn=q.n; tl=Rpos("tol"); Other o=other(vc_size("m",1)); off=vc_index("off",gn); gJ=vc_index("J",gn); vc_candidate("eqo",(void*)c_eqo,"i");
  bool r=polygons_equal(q.get(),o.get(),(std::size_t)off,POL(tl)); if(r) ENSURE(bl(gn==on)&eqp(gJ,fwd(gJ)),"polygons reported equal have as many points and every point agrees with the one offset places further round the other"); else COVER("unequal"); COVER("end"); }
VC_MAIN(polygons_complete){ vc_opt("loops","1"); SymSeq<PG> q("v",1); gb=q.b; gn=q.n; tl=Rpos("tol"); eb=vc_array("e",gn,2); off=vc_index("off",gn);
  ENSURE(bl(polygons_equal(q.get(),Near(),(std::size_t)off,POL(tl))),"polygons whose points agree within the tolerance at the given offset are reported equal"); COVER("end"); }
VC_MAIN(offset){ vc_opt("loops","1"); SymSeq<PG> q("v",1); gb=q.b; gn=q.n; tl=Rpos("tol"); Other o=other(gn); gJ=vc_index("J",gn); vc_candidate("none",(void*)c_no,"i");
  std::size_t r=polygon_polygon_offset(q.get(),o.get(),POL(tl)); if(r==(std::numeric_limits<std::size_t>::max)()) ENSURE(Not(eqp(0,gJ)),"no offset is reported only if no point agrees with the first point");
  else { ENSURE(bl(r<(std::size_t)gn)&eqp(0,(long)r),"the point at the offset agrees with the first point"); ENSURE(bl(gJ>=(long)r)|Not(eqp(0,gJ)),"the offset is the first such index"); } COVER("end"); }
static long nx(long i){ return i+1<gn?i+1:0; } static long pv(long i){ return i>0?i-1:gn-1; }
VC_MAIN(indices){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; long i=vc_index("i",gn); std::size_t u=next_index(q.get(),(std::size_t)i),v=prev_index(q.get(),(std::size_t)i);
  ENSURE(bl((long)u==nx(i)),"next index wraps round"); ENSURE(bl((long)v==pv(i)),"previous index wraps round"); 
  ENSURE(bl(prev_index(q.get(),u)==(std::size_t)i)&bl(next_index(q.get(),v)==(std::size_t)i),"next and previous index are inverse");
  double a=(X(i)-X(pv(i)))*(Y(nx(i))-Y(pv(i)))-(Y(i)-Y(pv(i)))*(X(nx(i))-X(pv(i))); FAR(a,0); ENSURE(iff(bl(is_point_concave(q.get(),(std::size_t)i)),le(a,0)),"a vertex is concave exactly when the path through it does not turn left"); COVER("end"); }
// congruence; distances, dot products and areas of vectors enter by their contracts (proved in C02 and C06)
#ifdef VC_NATIVE
static double dd(double a,double b,double c,double d){ return std::sqrt(sq(a-c)+sq(b-d)); } static double dp(double a,double b,double c,double d){ return a*c+b*d; } static double xp(double a,double b,double c,double d){ return a*d-b*c; }
static void kernels(){}
#else
static double dd(double a,double b,double c,double d){ return vc_fn("dist",4,a,b,c,d); } static double dp(double a,double b,double c,double d){ return vc_fn("dot",4,a,b,c,d); } static double xp(double a,double b,double c,double d){ return vc_fn("area",4,a,b,c,d); }
__attribute__((noinline)) static double c_dd(const P2& a,const P2& b){ return dd(a[0],a[1],b[0],b[1]); } __attribute__((noinline)) static double c_dp(const V2& a,const V2& b){ return dp(a[0],a[1],b[0],b[1]); } __attribute__((noinline)) static double c_xp(const V2& a,const V2& b){ return xp(a[0],a[1],b[0],b[1]); }
typedef double (*PPD)(const P2&,const P2&); typedef double (*VVD)(const V2&,const V2&);
static void kernels(){ vc_use_contract((void*)static_cast<PPD>(&point_point_distance<P2,P2>),(void*)&c_dd); vc_use_contract((void*)static_cast<VVD>(&dot_product<V2,V2>),(void*)&c_dp); vc_use_contract((void*)static_cast<VVD>(&exterior_product_area<V2,V2>),(void*)&c_xp); }
#endif
static double L1(long i,long j){ return dd(X(i),Y(i),X(j),Y(j)); } static double L2(long i,long j){ return dd(U(i),W(i),U(j),W(j)); }
static double D1(long h,long i,long j){ return dp(X(h)-X(i),Y(h)-Y(i),X(j)-X(i),Y(j)-Y(i)); } static double D2(long h,long i,long j){ return dp(U(h)-U(i),W(h)-W(i),U(j)-U(i),W(j)-W(i)); }
static double E1(long h,long i,long j){ return xp(X(h)-X(i),Y(h)-Y(i),X(j)-X(i),Y(j)-Y(i)); } static double E2(long h,long i,long j){ return xp(U(h)-U(i),W(h)-W(i),U(j)-U(i),W(j)-W(i)); }
static B sides(long i,long j){ return le(ab(L1(i,j)-L2(i,j)),tl); } static B corner(long h,long i,long j){ return le(ab(D1(h,i,j)-D2(h,i,j)),tl)&le(ab(E1(h,i,j)-E2(h,i,j)),tl); }
extern "C" bool c_cyc(long j,long i){ return (j<gn)&((j==i+1)|((j==0)&(i+1==gn))); }
extern "C" bool c_sd(long i){ return !(gJ<i)|(ab(L1(gJ,nx(gJ))-L2(gJ,nx(gJ)))<=tl); }
extern "C" bool c_co(long i){ return !((0<gJ)&(gJ<i))|((ab(D1(gJ-1,gJ,nx(gJ))-D2(gJ-1,gJ,nx(gJ)))<=tl)&(ab(E1(gJ-1,gJ,nx(gJ))-E2(gJ-1,gJ,nx(gJ)))<=tl)); }
VC_MAIN(polylines_congruent){ vc_opt("loops","1"); kernels(); vc_candidate("cyc",(void*)c_cyc,"ii"); SymSeq<PL> q("v",3); gb=q.b; gn=q.n; tl=Rpos("tol"); Other o=other(vc_size("m",3)); gJ=vc_index("J",gn-1); vc_candidate("sides",(void*)c_sd,"i"); vc_candidate("corner",(void*)c_co,"i");
  bool r=are_polylines_congruent(q.get(),reinterpret_cast<const PL&>(o),POL(tl)); if(r){ ENSURE(bl(gn==on)&sides(gJ,gJ+1),"polylines reported congruent have as many segments, of equal lengths"); if(gJ>0) ENSURE(corner(gJ-1,gJ,gJ+1),"polylines reported congruent have equal corners"); } else COVER("not"); COVER("end"); }
VC_MAIN(polygons_congruent){ vc_opt("loops","1"); kernels(); vc_candidate("cyc",(void*)c_cyc,"ii"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; tl=Rpos("tol"); Other o=other(vc_size("m",3)); gJ=vc_index("J",gn); vc_candidate("sides",(void*)c_sd,"i"); vc_candidate("corner",(void*)c_co,"i");
  bool r=are_polygons_congruent(q.get(),o.get(),POL(tl)); if(r){ ENSURE(bl(gn==on)&sides(gJ,nx(gJ)),"polygons reported congruent have as many edges, of equal lengths, closing edge included"); if(gJ>0) ENSURE(corner(gJ-1,gJ,nx(gJ)),"polygons reported congruent have equal corners"); } else COVER("not"); COVER("end"); }
static void motion(){ rc_=R("c"); rs_=R("s"); tx=R("tx"); ty=R("ty"); tl=Rpos("tol");
#ifdef VC_NATIVE
  double h=std::sqrt(rc_*rc_+rs_*rs_); vc_assume(h>0); rc_/=h; rs_/=h; vc_assume(tl>1e-6);
#else
  vc_assume(rc_*rc_+rs_*rs_==1);
#endif
}
VC_MAIN(polylines_complete){ vc_opt("loops","1"); vc_candidate("cyc",(void*)c_cyc,"ii"); SymSeq<PL> q("v",2); gb=q.b; gn=q.n; motion(); ENSURE(bl(are_polylines_congruent(q.get(),Moved(),POL(tl))),"a polyline is congruent to every rotated and shifted copy of itself"); COVER("end"); }
VC_MAIN(polygons_moved){ vc_opt("loops","1"); vc_candidate("cyc",(void*)c_cyc,"ii"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; motion(); ENSURE(bl(are_polygons_congruent(q.get(),Moved(),POL(tl))),"a polygon is congruent to every rotated and shifted copy of itself"); COVER("end"); }
