// SHAPE: scalar
// CONTRACT: remove_collinear_points_polyline, remove_collinear_points_polygon, coalesce_adjacent_points_polyline, coalesce_adjacent_points_polygon - algorithm/point_sequence/remove_collinear_points.hpp (any number of points)
// ASSUMES: the result sequence is a ghost sequence that keeps the number of points and the last three of them (the functions are templates over the sequence type); for the removal of collinear points: consecutive points are distinct and the outline does not turn straight back on itself
#include "geo.h"
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
using DC=direct_comparison_policy; using AC=absolute_tolerance_comparison_policy<double>; using sz=std::size_t;
static double* gb; static long gn,gK; static bool gclosed;
static P2 V(long i){ return P2{vc_at(gb,i,0,2),vc_at(gb,i,1,2)}; }
static double dotd(const P2& a,const P2& b,const P2& c){ return (b[0]-a[0])*(c[0]-b[0])+(b[1]-a[1])*(c[1]-b[1]); }
// the outline goes on at b: it turns, or continues in the same direction
static bool goes_on(const P2& a,const P2& b,const P2& c){ return (area2(a,b,c)!=0)|(dotd(a,b,c)>0); }
static bool distinct(const P2& a,const P2& b){ return (a[0]!=b[0])|(a[1]!=b[1]); }
#ifdef VC_NATIVE
template<class S> static void outline(const S& p,bool closed){ long n=p.size(); for(long i=0;i<(closed?n:n-1);++i) vc_assume(distinct(p[i],p[(i+1)%n])); for(long i=closed?0:1;i<(closed?n:n-1);++i) vc_assume(goes_on(p[(i+n-1)%n],p[i],p[(i+1)%n])); }
// the result: kept points are those of the input in order, first kept; every point is on the edge of the result that replaces it; inner corners of the result turn
template<class S> static void kept(const S& p,const S& r,bool closed){ long n=p.size(),m=r.size(),k=0; 
  ENSURE(bl(m>=2&&m<=n),"points are only removed"); ENSURE(same(r[0],p[0]),"the first point is kept");
  for(long j=0;j+1<m;++j){ long k0=k; while(k<n&&(k==k0||distinct(p[k],r[j+1]))) ++k; ENSURE(bl(k<n),"the points kept are points of the outline in their order"); for(long i=k0;i<=k;++i) ENSURE(onseg(p[i],r[j],r[j+1]),"every removed point is on the edge that replaces it"); }
  if(closed){ for(;k<n;++k) ENSURE(onseg(p[k],r[m-1],r[0]),"every removed point is on the edge that replaces it"); } else ENSURE(same(r[m-1],p[n-1]),"the last point is kept");
  for(long j=0;j+2<m;++j) ENSURE(bl(area2(r[j],r[j+1],r[j+2])!=0),"no three consecutive points kept are collinear"); }
template<class S> static S input(const char* nm,long lo){ SymSeq<S> q(nm,lo); return q.get(); }
static void do_collinear_polyline(){ PL p=input<PL>("v",3); outline(p,false); kept(p,remove_collinear_points_polyline(p,dcmp),false); COVER("end"); }
static void do_collinear_polygon(){ PG p=input<PG>("v",4); outline(p,true); kept(p,remove_collinear_points_polygon(p,dcmp),true); COVER("end"); }
template<class S> static void near(const S& p,const S& r,double t,bool closed){ long n=p.size(),m=r.size(),j=0; ENSURE(bl(m>=1&&m<=n)&same(r[0],p[0]),"the first point is kept");
  for(long i=1;i<n;++i){ if(dist2(r[j],p[i])>t&&!(closed&&i+1==n&&!(dist2(p[i],p[0])>t))){ ++j; ENSURE(bl(j<m),"points are removed only if they are close to the last one kept"); ENSURE(same(r[j],p[i]),"the points kept are points of the outline in their order"); } }
  ENSURE(bl(j+1==m),"consecutive points kept are not close"); }
static void do_coalesce_polyline(){ double t=Rnn("tol"); PL p=input<PL>("v",3); near(p,coalesce_adjacent_points_polyline(p,AC(t)),t,false); COVER("end"); }
static void do_coalesce_polygon(){ double t=Rnn("tol"); PG p=input<PG>("v",4); near(p,coalesce_adjacent_points_polygon(p,AC(t)),t,true); COVER("end"); }
#else
// ---- the result by its abstract state: how many points, the last three, and which points of the input they are
static long on_,ocur,opi; static P2 opp,op,ol; static double gtol; static bool gcol;
static bool ok_last(){ return gcol?((ol[0]==V(ocur)[0])&(ol[1]==V(ocur)[1])):true; }
static bool near_last(){ P2 c=V(ocur); return ((ol[0]==c[0])&(ol[1]==c[1]))|!(dist2(ol,c)>gtol); }
static bool kept_ok(){ return (on_<2)|(dist2(op,ol)>gtol); }
// the edge being built leaves op in direction gD; ol is at parameter gt1 on it (gt0 before the point looked at last), the last step was gg times gD, the point K is at parameter gtk
static double gDx,gDy,gt1,gt0,gg,gtk;
static void edge(){ gDx=ol[0]-op[0]; gDy=ol[1]-op[1]; gt1=1; gg=1; if(gK==ocur) gtk=1; if(gK==opi) gtk=0; }
static void lemma(bool c,const char* n){ vc_ensure(c,n); vc_assume(c); }
static bool is(const P2& a,const P2& b); static bool param(double t);
static void step(long i){ lemma(is(ol,V(ocur)),"lemma: the last point looked at ends the edge"); lemma(!((opi<=gK)&(gK<=ocur))|param(gt1),"lemma: removed points are on the edge"); P2 a=V(i-1),c=V(i); double wx=c[0]-a[0],wy=c[1]-a[1]; gt0=gt1; gg=vc_real("gg"); vc_assume(gg*(gDx*gDx+gDy*gDy)==gDx*wx+gDy*wy);   // gg is the quotient: gD is not zero
  lemma((area2(op,ol,c)!=0)|((wx==gg*gDx)&(wy==gg*gDy)),"lemma: a step along the edge is a multiple of its direction"); lemma((area2(op,ol,c)!=0)|(gg>0),"lemma: a step along the edge goes forward"); gt1=gt0+gg; if(gK==i) gtk=gt1; }
static bool okl(); static double tl();
// V(K) and ol are at parameters 0<=gtk<=tl of the same ray from op: V(K) is on the segment from op to ol
static B covers(long upto,double t){ P2 k=V(gK); return bl(!((opi<=gK)&(gK<=upto)))|(eq(k[0],op[0]+gtk*gDx)&eq(k[1],op[1]+gtk*gDy)&eq(ol[0],op[0]+t*gDx)&eq(ol[1],op[1]+t*gDy)&le(0,gtk)&le(gtk,t)); }
static B covers(long upto){ return covers(upto,tl()); } static B covers0(long upto){ return covers(upto,gt0); }   // gt0: while a new point is looked at
struct Out{ bool in; Out():in(false){} Out(std::initializer_list<P2> L):in(false){ const P2* f=L.begin(); on_=L.size(); if(on_==1){ ol=f[0]; ocur=0; ENSURE(same(ol,V(0)),"the first point is kept"); } else { op=f[0]; ol=f[1]; opi=0; ocur=1; edge(); ENSURE(same(op,V(0)),"the first point is kept"); } }
  const P2& front()const{ return *(const P2*)gb; } const P2& operator[](sz i_)const{ long i=(long)i_; if((i==0)|(gcol&(i==1))|(i==ocur)) return *(const P2*)(gb+2*i); ENSURE(bl((ocur<i)&(i==ocur+1)),"the points of the outline are taken in their order");
    if(gcol){ vc_assume(distinct(V(i-1),V(i))); vc_assume((i<2)||goes_on(V(i-2),V(i-1),V(i))); step(i); } else ENSURE(bl(near_last()),"points are removed only if they are close to the last one kept"); ocur=i; return *(const P2*)(gb+2*i); }
  void check(double t=0){ if(gcol){ ENSURE(bl((on_<3)|(((op[0]-opp[0])*gDy-(op[1]-opp[1])*gDx!=0)&(t>0)))&eq(ol[0],op[0]+t*gDx)&eq(ol[1],op[1]+t*gDy),"no three consecutive points kept are collinear"); } else ENSURE(bl(kept_ok()),"consecutive points kept are not close"); }
  void push_back(const P2& c){ ENSURE(same(c,V(ocur)),"the points kept are points of the outline in their order"); if(gcol){ ENSURE(same(ol,V(ocur-1)),"the points kept are points of the outline in their order"); check(gt0); ENSURE(covers0(ocur-1),"every removed point is on the edge that replaces it"); } else check();
    opp=op; op=ol; ol=c; opi=ocur-1; ++on_; if(gcol) edge(); } };
namespace geometrix{ template<> struct point_sequence_traits<Out>{ typedef P2 point_type; static sz size(const Out& s){ return s.in?(sz)gn:(sz)on_; }
  static const P2& get_point(const Out& s,sz i){ if(s.in) return s[i]; ENSURE(bl(((long)i==on_-2)|((long)i==on_-1)),"only the last points of the result are looked at"); return (long)i==on_-2?op:ol; }
  static const P2& front(const Out& s){ return *(const P2*)gb; } static P2& back(Out& s){ return ol; } }; }
static bool at_end(){ return gclosed&(ocur==gn-1); } static bool is(const P2& a,const P2& b){ return (a[0]==b[0])&(a[1]==b[1]); }
static bool dropped(){ return at_end()&is(ol,V(gn-2)); }
extern "C" bool v_drop(){ return !at_end()|is(ol,V(ocur))|(area2(ol,V(ocur),V(0))==0); }
extern "C" bool v_last(){ return ok_last()|dropped(); } extern "C" bool v_near(){ return (near_last()|(at_end()&!(dist2(V(ocur),V(0))>gtol)))&kept_ok(); }
extern "C" bool v_idx(){ return (1<=ocur)&(ocur<gn)&(0<=opi)&(opi<ocur)&(on_>=2)&(on_<=ocur+1); } extern "C" bool v_idxc(){ return (0<=ocur)&(ocur<gn)&(on_>=1)&(on_<=ocur+1); } extern "C" bool v_first(){ return !(gcol&(ocur==1))|(opi==0); } extern "C" bool v_cur(long i){ return i==ocur+1; } extern "C" bool v_curs(long i){ return (i==ocur)|((i==ocur+1)&(i==gn)); }
extern "C" bool v_prev(){ P2 q=V(opi); return (op[0]==q[0])&(op[1]==q[1]); }
static bool okl(){ return !at_end()|is(ol,V(ocur)); } static double tl(){ return okl()?gt1:gt0; }
extern "C" bool v_dir(){ return ((gDx!=0)|(gDy!=0))&(tl()>0)&(ol[0]==op[0]+tl()*gDx)&(ol[1]==op[1]+tl()*gDy); }
extern "C" bool v_fwd(){ P2 a=V(ocur-1),b=V(ocur); return at_end()|((b[0]-a[0]==gg*gDx)&(b[1]-a[1]==gg*gDy)&(gg>0)); }
static bool param(double t){ P2 k=V(gK); return (k[0]==op[0]+gtk*gDx)&(k[1]==op[1]+gtk*gDy)&(0<=gtk)&(gtk<=t); }
extern "C" bool v_cov(){ return !((opi<=gK)&(gK<ocur))|param(tl()); } extern "C" bool v_cov1(){ return (gK!=ocur)|!okl()|param(tl()); }
extern "C" bool v_turn(){ return (on_<3)|((op[0]-opp[0])*gDy-(op[1]-opp[1])*gDx!=0); }
static Out input(bool col,bool closed,long lo){ vc_opt("loops","cut"); vc_opt("candidates","declared"); gn=vc_size("n",lo); gb=vc_array("v",gn,2); gK=vc_index("K",gn); gcol=col; gclosed=closed; on_=0; ocur=0; opi=0; opp=op=ol=P2{0,0}; gDx=gDy=gt1=gt0=gg=gtk=0;
  if(col){ vc_assume(distinct(V(0),V(1))); if(closed){ vc_assume(distinct(V(gn-1),V(0))); vc_assume(goes_on(V(gn-2),V(gn-1),V(0))); vc_candidate("drop",(void*)v_drop,""); } 
    vc_candidate("idx",(void*)v_idx,""); vc_candidate("last",(void*)v_last,""); vc_candidate("prev",(void*)v_prev,""); vc_candidate("dir",(void*)v_dir,""); vc_candidate("fwd",(void*)v_fwd,""); vc_candidate("cov",(void*)v_cov,""); vc_candidate("cov1",(void*)v_cov1,""); vc_candidate("turn",(void*)v_turn,""); vc_candidate("first",(void*)v_first,""); }
  else { vc_candidate("idxc",(void*)v_idxc,""); vc_candidate("near",(void*)v_near,""); }
  vc_candidate("cur",(void*)v_cur,"i"); Out o; o.in=true; return o; }
static void do_collinear_polyline(){ Out p=input(true,false,3); Out r=remove_collinear_points_polyline(p,dcmp); r.check(tl()); ENSURE(bl((on_>=2)&(on_<=gn)),"points are only removed"); ENSURE(same(ol,V(gn-1)),"the last point is kept"); ENSURE(bl(ocur==gn-1),"the points of the outline are taken in their order"); ENSURE(covers(gn-1),"every removed point is on the edge that replaces it"); COVER("end"); }
static void do_collinear_polygon(){ Out p=input(true,true,4); Out r=remove_collinear_points_polygon(p,dcmp); ENSURE(bl((on_>=2)&(on_<=gn)),"points are only removed"); ENSURE(bl(ocur==gn-1),"the points of the outline are taken in their order"); P2 k=V(gK),f=V(0);
  r.check(tl()); if((ol[0]==V(gn-1)[0])&(ol[1]==V(gn-1)[1])) ENSURE(covers(gn-1),"every removed point is on the edge that replaces it");
  else { ENSURE(same(ol,V(gn-2)),"the points kept are points of the outline in their order"); ENSURE(covers(gn-2),"every removed point is on the edge that replaces it"); ENSURE(onseg(V(gn-1),ol,f),"every removed point is on the edge that replaces it"); } COVER("end"); }
static void do_coalesce_polyline(){ gtol=Rnn("tol"); Out p=input(false,false,3); Out r=coalesce_adjacent_points_polyline(p,AC(gtol)); r.check(); ENSURE(bl((on_>=1)&(on_<=gn)&(ocur==gn-1)),"the points of the outline are taken in their order"); ENSURE(bl(near_last()),"points are removed only if they are close to the last one kept"); COVER("end"); }
static void do_coalesce_polygon(){ gtol=Rnn("tol"); Out p=input(false,true,4); Out r=coalesce_adjacent_points_polygon(p,AC(gtol)); r.check(); ENSURE(bl((on_>=1)&(on_<=gn)&(ocur==gn-1)),"the points of the outline are taken in their order"); ENSURE(bl(near_last()|!(dist2(V(ocur),V(0))>gtol)),"points are removed only if they are close to the last one kept"); COVER("end"); }
#endif
// (each main takes a sequence of any length: vc_size)
VC_MAIN(collinear_polyline){ do_collinear_polyline(); /* vc_size */ }
VC_MAIN(collinear_polygon){ do_collinear_polygon(); /* vc_size */ }
VC_MAIN(coalesce_polyline){ do_coalesce_polyline(); /* vc_size */ }
VC_MAIN(coalesce_polygon){ do_coalesce_polygon(); /* vc_size */ }
