// CONTRACT: point_in_polygon - algorithm/point_in_polygon.hpp (any number of points)
// CONTRACT: point_polygon_containment_or_on_border - algorithm/point_in_polygon.hpp (any number of points)
#include "geo.h"
#include <geometrix/algorithm/point_in_polygon.hpp>
static double* gb; static long gn,gJ; static double px,py;
static double X(long i){ return vc_at(gb,i,0,2); } static double Y(long i){ return vc_at(gb,i,1,2); }
static double AR(long i,long j){ return (X(j)-X(i))*(py-Y(i))-(Y(j)-Y(i))*(px-X(i)); }     // > 0: p is left of the edge from i to j
// the edge i,j crosses the open ray from p to the right; an end at the height of p counts as below
static bool crosses(long i,long j){ bool up=(Y(i)<=py)&(py<Y(j)),dn=(Y(j)<=py)&(py<Y(i)); return (up&(AR(i,j)>0))|(dn&(AR(i,j)<0)); }
static double flip(double a,bool c){ return sel(c,1-a,a); }
extern "C" double st_par(double a,long i){ return flip(a,crosses(i,i+1)); }
static double P(long i){ return vc_fold("par",(void*)st_par,0,i); }
static double PC(long i){ return i<1?0.:flip(P(i-1),crosses(gn-1,0)); }
extern "C" bool cp_i(long a,long i){ return (double)(a!=0)==P(i); }  extern "C" bool cp_b(bool a,long i){ return (double)a==P(i); }
extern "C" bool cc_i(long a,long i){ return (double)(a!=0)==PC(i); } extern "C" bool cc_b(bool a,long i){ return (double)a==PC(i); }
extern "C" bool c01(long a){ return (a==0)|(a==1); }
static void natural(){
#ifdef VC_NATIVE
  for(long i=0;i<gn;++i){ FAR(AR(i,(i+1)%gn),0); FAR(Y(i),py); }
#endif
}
VC_MAIN(crossings){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; px=R("px"); py=R("py"); natural();
  vc_candidate("par",(void*)cp_i,"ii"); vc_candidate("par",(void*)cp_b,"bi"); vc_candidate("parc",(void*)cc_i,"ii"); vc_candidate("parc",(void*)cc_b,"bi"); vc_candidate("bit",(void*)c01,"i");
  bool r=point_in_polygon(P2{px,py},q.get()); ENSURE(eq(r,PC(gn)),"a point is inside exactly when an odd number of edges crosses the ray to its right"); COVER("end"); }
// ---- classification with border and vertex
static bool at(long i){ return (X(i)==px)&(Y(i)==py); }
static bool right_of_p(long i,long j){ double a=AR(i,j); return (Y(j)>Y(i))?a>0:a<0; } static bool left_of_p(long i,long j){ double a=AR(i,j); return (Y(j)>Y(i))?a<0:a>0; }
static bool rc(long i,long j){ return ((Y(i)>py)!=(Y(j)>py))&right_of_p(i,j); } static bool lc(long i,long j){ return ((Y(i)<py)!=(Y(j)<py))&left_of_p(i,j); }
static bool inner(long i,long j){ return (AR(i,j)==0)&((px-X(i))*(px-X(j))+(py-Y(i))*(py-Y(j))<0); }   // p is on the edge, between its ends
static long prv(long i){ return i==0?gn-1:i-1; }
extern "C" double st_r(double a,long i){ return flip(a,rc(prv(i),i)); } extern "C" double st_l(double a,long i){ return flip(a,lc(prv(i),i)); } extern "C" double st_on(double a,long i){ return flip(a,inner(prv(i),i)); }
static double RP(long i){ return vc_fold("r",(void*)st_r,0,i); } static double LP(long i){ return vc_fold("l",(void*)st_l,0,i); } static double ON(long i){ return vc_fold("on",(void*)st_on,0,i); }
extern "C" bool ck_r(long a,long i){ return (double)(a&1)==RP(i); } extern "C" bool ck_l(long a,long i){ return (double)(a&1)==LP(i); }
extern "C" bool ck_01(long i){ double r=RP(i),l=LP(i),o=ON(i); return ((r==0)|(r==1))&((l==0)|(l==1))&((o==0)|(o==1)); }
static bool t(long i){ return (Y(i)>py)!=((Y(i)==py)&(X(i)<px)); }
extern "C" bool ck_tele(long i){ double s=flip(flip(RP(i),LP(i)!=0),ON(i)!=0); if(i<1) return (i==0)&(s==0); return at(gn-1)|at(i-1)|((s!=0)==(t(i-1)!=t(gn-1))); }
extern "C" bool ck_nv(long i){ return (i<1)|!at(i-1); } extern "C" bool ck_nj(long i){ return !(gJ<i)|!at(gJ); }
VC_MAIN(classify){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; gJ=vc_index("J",gn); px=R("px"); py=R("py"); natural();
  vc_candidate("r",(void*)ck_r,"ii"); vc_candidate("l",(void*)ck_l,"ii"); vc_candidate("nj",(void*)ck_nj,"i");
  auto r=point_polygon_containment_or_on_border(P2{px,py},q.get(),dcmp); 
  if(r==polygon_containment::vertex){ COVER("vertex"); return; }
  ENSURE(bl(!at(gJ)),"a point that is not reported as a vertex is none of the vertices");
  ENSURE(iff(bl(r==polygon_containment::border),ne(RP(gn),LP(gn))),"border exactly when an odd number of edges passes through the point");
  ENSURE(iff(bl(r==polygon_containment::interior),ne(RP(gn),0)&ne(LP(gn),0)),"interior exactly when an odd number of edges crosses the ray to the right"); COVER("end"); }
// the two crossing counts differ in parity exactly when an odd number of edges passes through the point (ghost loop: induction over the edges)
static void edge_lemma(long h,long i){ double a=Y(h)-py,b=Y(i)-py;
  if(a<0) COVER("below"); else if(a>0) COVER("above"); else COVER("level"); if(b<0) COVER("below"); else if(b>0) COVER("above"); else COVER("level");
  LEMMA(bl(((rc(h,i)!=lc(h,i))!=inner(h,i))==(t(i)!=t(h))),"per edge: crossings right and left differ exactly by the position of its ends, unless it passes through the point"); }
VC_MAIN(parity_lemma){ vc_opt("loops","1"); SymSeq<PG> q("v",3); gb=q.b; gn=q.n; px=R("px"); py=R("py"); natural();
  vc_candidate("01",(void*)ck_01,"i"); vc_candidate("tele",(void*)ck_tele,"i"); vc_candidate("nv",(void*)ck_nv,"i");
  for(long i=0;i<gn;++i){ if(at(i)) return; long h=prv(i); if(at(h)) return; edge_lemma(h,i); }
  ENSURE(iff(ne(RP(gn),LP(gn)),ne(ON(gn),0)),"the crossing counts to the right and to the left differ in parity exactly when an odd number of edges passes through the point"); COVER("end"); }
// both queries use the same crossing count
VC_MAIN(agree){ double b[4]={R("ux"),R("uy"),R("vx"),R("vy")}; gb=b; px=R("px"); py=R("py");
  double a=(b[2]-b[0])*(py-b[1])-(b[3]-b[1])*(px-b[0]); FAR(a,0); FAR(py,b[1]); FAR(py,b[3]); bool up=(b[1]<=py)&(py<b[3]),dn=(b[3]<=py)&(py<b[1]);
  ENSURE(bl(((up&(a>0))|(dn&(a<0)))==(((b[1]>py)!=(b[3]>py))&((b[3]>b[1])?a>0:a<0))),"the crossing counted by the two queries is the same"); COVER("end"); }
