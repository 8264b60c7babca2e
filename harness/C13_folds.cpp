// CONTRACT: get_signed_area, get_area, get_centroid, get_bounds - primitive/point_sequence_utilities.hpp
// CONTRACT: polyline_length, polygon_length - algorithm/point_sequence/length.hpp
#include "geo.h"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
static double* gb; static long gn;
static double X(long i){ return vc_at(gb,i,0,2); } static double Y(long i){ return vc_at(gb,i,1,2); }
static double cr(long i,long j){ return X(i)*Y(j)-Y(i)*X(j); }
extern "C" double st_area(double a,long i){ return a+cr(i,i+1); }
static double A(long i){ return vc_fold("area",(void*)st_area,0,i); }      // sum of the first i cross products
extern "C" bool cd_area(double a,long i){ return a==A(i); }
extern "C" double st_mx(double a,long i){ return a+cr(i,i+1)*(X(i)+X(i+1)); }
extern "C" double st_my(double a,long i){ return a+cr(i,i+1)*(Y(i)+Y(i+1)); }
static double MX(long i){ return vc_fold("mx",(void*)st_mx,0,i); } static double MY(long i){ return vc_fold("my",(void*)st_my,0,i); }
extern "C" bool cd_mx(double a,long i){ return a==MX(i); }
extern "C" bool cd_my(double a,long i){ return a==MY(i); }
VC_MAIN(signed_area){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; vc_candidate("area",(void*)cd_area,"di"); double s=get_signed_area(q.get()); double tot=A(gn-1)+cr(gn-1,0);
  ENSURE(eq(2*s,tot),"twice the signed area is the sum of the cross products of consecutive vertices, closing edge included"); double a=get_area(q.get()); ENSURE(eq(2*a,ab(tot)),"area is the magnitude of the signed area"); COVER("end"); }
VC_MAIN(centroid){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; vc_candidate("area",(void*)cd_area,"di"); vc_candidate("mx",(void*)cd_mx,"di"); vc_candidate("my",(void*)cd_my,"di"); 
  double k=cr(gn-1,0),tot=A(gn-1)+k; REQUIRE(ne(tot,0)); FAR(tot,0); P2 c=get_centroid(q.get()); ENSURE(eq(c[0]*3*tot,MX(gn-1)+k*(X(gn-1)+X(0)))&eq(c[1]*3*tot,MY(gn-1)+k*(Y(gn-1)+Y(0))),"the centroid is the first moment over the area"); COVER("end"); }
static double D(long i,long j){ return std::sqrt(sq(X(i)-X(j))+sq(Y(i)-Y(j))); }
extern "C" double st_len(double a,long i){ return a+D(i,i+1); }
static double L(long i){ return vc_fold("len",(void*)st_len,0,i); }
extern "C" bool cd_len(double a,long i){ return a==L(i); }
extern "C" bool cd_len1(double a,long i){ return a==L(i-1); }
VC_MAIN(lengths){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; vc_candidate("len",(void*)cd_len,"di"); vc_candidate("len1",(void*)cd_len1,"di"); double l=polyline_length(q.as<PL>()); ENSURE(eq(l,L(gn-1)),"the length of a polyline is the sum of its segment lengths"); 
  double m=polygon_length(q.get()); ENSURE(eq(m,L(gn-1)+D(gn-1,0)),"the length of a polygon includes the closing edge"); COVER("end"); }
static long gJ;
extern "C" bool cd_lox(double a,long i){ return !(gJ<i)|(a<=X(gJ)); } extern "C" bool cd_hix(double a,long i){ return !(gJ<i)|(X(gJ)<=a); }
extern "C" bool cd_loy(double a,long i){ return !(gJ<i)|(a<=Y(gJ)); } extern "C" bool cd_hiy(double a,long i){ return !(gJ<i)|(Y(gJ)<=a); }
// extreme value attained: the running extreme is the fold of min / max over the coordinates
extern "C" double st_minx(double a,long i){ return sel(X(i+1)<a,X(i+1),a); } extern "C" double st_maxx(double a,long i){ return sel(a<X(i+1),X(i+1),a); }
extern "C" double st_miny(double a,long i){ return sel(Y(i+1)<a,Y(i+1),a); } extern "C" double st_maxy(double a,long i){ return sel(a<Y(i+1),Y(i+1),a); }
static double lox(long i){ return vc_fold("lox",(void*)st_minx,X(0),i); } static double hix(long i){ return vc_fold("hix",(void*)st_maxx,X(0),i); }
static double loy(long i){ return vc_fold("loy",(void*)st_miny,Y(0),i); } static double hiy(long i){ return vc_fold("hiy",(void*)st_maxy,Y(0),i); }
extern "C" bool ce_lox(double a,long i){ return a==lox(i-1); } extern "C" bool ce_hix(double a,long i){ return a==hix(i-1); }
extern "C" bool ce_loy(double a,long i){ return a==loy(i-1); } extern "C" bool ce_hiy(double a,long i){ return a==hiy(i-1); }
VC_MAIN(bounds){ vc_opt("loops","1"); SymSeq<PG> q("v",1); gb=q.b; gn=q.n; 
  vc_candidate("lox",(void*)ce_lox,"di"); vc_candidate("hix",(void*)ce_hix,"di"); vc_candidate("loy",(void*)ce_loy,"di"); vc_candidate("hiy",(void*)ce_hiy,"di");
  auto b=get_bounds(q.get(),dcmp); ENSURE(eq(std::get<e_xmin>(b),lox(gn-1))&eq(std::get<e_xmax>(b),hix(gn-1))&eq(std::get<e_ymin>(b),loy(gn-1))&eq(std::get<e_ymax>(b),hiy(gn-1)),"bounds are the least and greatest coordinates"); COVER("end"); }
