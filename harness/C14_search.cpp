// CONTRACT: polygon_polygon_distance_sqrd, polyline_polyline_distance_sqrd, polygon_polygon_closest_point, polyline_polyline_closest_point - algorithm/distance (the divide and conquer search, any number of points; range kernels and boxes enter by their contracts: kernels proved in C14_ranges, boxes in C02 and C08)
// ASSUMES: std::priority_queue enters by its contract (top is not before any item in it in the order given, no item is lost); the squared distance of the boxes of two index ranges does not exceed that of any two segments of the ranges (from the box contracts proved in C02 and C08 by convexity of a box)
// SHAPE: scalar
#include "vc.h"
#include <queue>
#include <tuple>
using RG=std::tuple<std::size_t,std::size_t>; using sz=std::size_t;
#ifndef VC_NATIVE
// the work queue by its contract: one arbitrary item (the last one added that holds the pair of edges (gi,gj)) is followed, all others are arbitrary
static long gi,gj,n1,n2; static double W;                        // W: the least squared distance over all pairs of edges, attained by the pair (gi,gj), an arbitrary one
static long q_in; static long q1,q2,q3,q4; static double qd;     // the item followed
static bool has(long a0,long a1,long b0,long b1){ return (a0<=gi)&(gi<a1)&(b0<=gj)&(gj<b1); }
static bool range(long a0,long a1,long b0,long b1){ return (0<=a0)&(a0<a1)&(a1<n1)&(0<=b0)&(b0<b1)&(b1<n2); }
template<class V,class C> class std::priority_queue<std::tuple<RG,RG,double>,V,C> {
  typedef std::tuple<RG,RG,double> T; T cur; bool isg=false;
public:
  priority_queue(){ q_in=0; q1=q2=q3=q4=0; qd=0; } 
  template<class...A> void emplace(A&&...a){ push(T(std::forward<A>(a)...)); }
  void push(const T& t){ long a=std::get<0>(std::get<0>(t)),b=std::get<1>(std::get<0>(t)),c=std::get<0>(std::get<1>(t)),d=std::get<1>(std::get<1>(t)); vc_ensure(range(a,b,c,d),"work items are proper index ranges");
    bool h=has(a,b,c,d); q_in=h?1:q_in; q1=h?a:q1; q2=h?b:q2; q3=h?c:q3; q4=h?d:q4; double k=std::get<2>(t); qd=h?k:qd; }
  bool empty(){ bool e=vc_bool("empty"); return e&(q_in==0); }
  const T& top(){ bool g=vc_bool("top"); if((q_in!=0)&g){ isg=true; cur=T(RG(q1,q2),RG(q3,q4),qd); return cur; }
    isg=false; long a=vc_int("a",0,1L<<40),b=vc_int("b",0,1L<<40),c=vc_int("c",0,1L<<40),d=vc_int("d",0,1L<<40); vc_assume(range(a,b,c,d)); double k=vc_real("k"); cur=T(RG(a,b),RG(c,d),k);
    if(q_in!=0) vc_assume(!C()(cur,T(RG(q1,q2),RG(q3,q4),qd))); return cur; }
  void pop(){ if(isg) q_in=0; }
};
#endif
#include "geo.h"
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
using AB=axis_aligned_bounding_box<P2>; using DC=direct_comparison_policy;
static sz oi=99,oj=99; static double os=7,ot=7; static P2 oa{91,92},ob{93,94};
#ifdef VC_NATIVE
#define CONTRACT(T,f,c)
static double ssd(const P2& p,const P2& q,const P2& a,const P2& b){ return segment_segment_distance_sqrd(p,q,a,b,dcmp); }
template<class S> static void proper(const S& s){ long n=s.size(); for(long i=0;i<n;++i){ P2 a=s[i],b=s[(i+1)%n]; vc_assume(a[0]!=b[0]||a[1]!=b[1]); } }
template<class S> static B least(double d,const S& x,const S& y,bool closed){ double m=1e300; long n=x.size(),k=y.size(); for(long i=0;i<(closed?n:n-1);++i) for(long j=0;j<(closed?k:k-1);++j) m=mn(ssd(x[i],x[(i+1)%n],y[j],y[(j+1)%k]),m); return eq(d,m); }
template<class S> static B witness(const S& x,const S& y,bool closed,double d,sz i,sz j,double s,double t,const P2& a,const P2& b){ long n=x.size(),k=y.size();
  if(!(i<(closed?n:n-1))||!(j<(closed?k:k-1))) return B(false); const P2 &p=x[i],&q=x[(i+1)%n],&u=y[j],&v=y[(j+1)%k];
  return eq(dist2(a,b),d)&le(0,s)&le(s,1)&le(0,t)&le(t,1)&eq(a[0],p[0]+s*(q[0]-p[0]))&eq(a[1],p[1]+s*(q[1]-p[1]))&eq(b[0],u[0]+t*(v[0]-u[0]))&eq(b[1],u[1]+t*(v[1]-u[1])); }
template<class S> static void box_contracts(const S& x,const S& y){ proper(x); proper(y); }
#else
#define CONTRACT(T,f,c) vc_use_contract((void*)static_cast<T>(&f),(void*)static_cast<T>(&c))
static const void* gy; static const P2 *gx0,*gy0; static bool gclosed;
static double F(const char* n,sz i,sz j){ return vc_fn(n,2,(double)(long)i,(double)(long)j); }
static double over(long a0,long a1,long b0,long b1){ double m=vc_fn("least",4,(double)a0,(double)a1,(double)b0,(double)b1); vc_assume(m>=W); vc_assume(!has(a0,a1,b0,b1)|(m==W)); return m; }
template<class S> static B least(double d,const S&,const S&,bool closed){ return eq(d,W); }
static bool wit(double d){ long i=oi,j=oj; bool first=(i==0)&(j==0)&(os==0)&(ot==0)&(oa[0]==gx0[0][0])&(oa[1]==gx0[0][1])&(ob[0]==gy0[0][0])&(ob[1]==gy0[0][1])&(d==vc_fn("pp",4,gx0[0][0],gx0[0][1],gy0[0][0],gy0[0][1]));    // the first points themselves
  return first|((i>=0)&(i<(gclosed?n1:n1-1))&(j>=0)&(j<(gclosed?n2:n2-1))&(F("d",i,j)==d)&(os==F("s",i,j))&(ot==F("t",i,j))&(oa[0]==F("ax",i,j))&(oa[1]==F("ay",i,j))&(ob[0]==F("bx",i,j))&(ob[1]==F("by",i,j))); }
template<class S> static B witness(const S& x,const S& y,bool closed,double d,sz i,sz j,double s,double t,const P2& a,const P2& b){ return wit(d); }
static double pick(long a0,long a1,long b0,long b1,sz& i,sz& j,double& s,double& t,P2& a,P2& b){ double m=over(a0,a1,b0,b1),k[4]={(double)a0,(double)a1,(double)b0,(double)b1};
  long x=vc_int("i1",0,1L<<40),y=vc_int("i2",0,1L<<40); vc_assume((a0<=x)&(x<a1)&(b0<=y)&(y<b1)); i=x; j=y; vc_assume(F("d",i,j)==m); s=F("s",i,j); t=F("t",i,j); a=P2{F("ax",i,j),F("ay",i,j)}; b=P2{F("bx",i,j),F("by",i,j)}; return m; }
// ---- contracts: boxes
template<class S> __attribute__((noinline)) AB mkr(const S& s,const RG& r,const DC&,void*){ return AB(P2{0,(double)(long)std::get<0>(r)},P2{0,(double)(long)std::get<1>(r)}); }
template<class S> __attribute__((noinline)) AB mk(const S& s,const DC&,void*){ return AB(P2{0,0},P2{0,(double)(long)(s.size()-1)}); }
__attribute__((noinline)) static double abd(const AB& x,const AB& y){ double a0=x.get_lower_bound()[1],a1=x.get_upper_bound()[1],b0=y.get_lower_bound()[1],b1=y.get_upper_bound()[1];
  double r=vc_fn("boxd",4,a0,a1,b0,b1); vc_assume(r>=0); bool h=(a0<=(double)gi)&((double)gi<a1)&(b0<=(double)gj)&((double)gj<b1); vc_assume(!h|(r<=W)); return r; }
// the distance of two points of the sequences is at least the least distance
__attribute__((noinline)) static double ppd(const P2& p,const P2& q){ double r=vc_fn("pp",4,p[0],p[1],q[0],q[1]); vc_assume(r>=W); return r; }
extern "C" bool inv_lb(double m){ return m>=W; }
extern "C" bool inv_cov(double m){ return (m==W)|(q_in!=0); }
extern "C" bool inv_item(){ return (q_in==0)|(range(q1,q2,q3,q4)&has(q1,q2,q3,q4)&(qd<=W)); }
extern "C" bool inv_wit(double m){ return wit(m); }
template<class S> static void box_contracts(const S& x,const S& y){ vc_opt("loops","cut"); vc_opt("candidates","declared"); n1=x.size(); n2=y.size(); gy=&y; gx0=&x[0]; gy0=&y[0]; W=Rnn("W"); gclosed=std::is_same<S,PG>::value; 
  gi=vc_int("gi",0,1L<<40); gj=vc_int("gj",0,1L<<40); vc_assume((gi<(gclosed?n1:n1-1))&(gj<(gclosed?n2:n2-1)));
  vc_candidate("not below the least distance",(void*)inv_lb,"d"); vc_candidate("found or still to be searched",(void*)inv_cov,"d"); vc_candidate("the item to be searched holds the closest pair",(void*)inv_item,"");
  typedef AB (*MR)(const S&,const RG&,const DC&,void*); typedef AB (*M0)(const S&,const DC&,void*); typedef double (*BD)(const AB&,const AB&);
  CONTRACT(MR,(make_aabb<P2,S,DC>),mkr<S>); CONTRACT(M0,(make_aabb<P2,S,DC>),mk<S>); CONTRACT(BD,(aabb_aabb_distance_sqrd<P2>),abd); typedef double (*PP)(const P2&,const P2&); CONTRACT(PP,(point_point_distance_sqrd<P2,P2>),ppd); }
static void follow(){ vc_candidate("the witness belongs to the distance found",(void*)inv_wit,"d"); }
#endif
#ifdef VC_NATIVE
static void follow(){}
// failing inputs are looked for among long sequences too: far apart but for one arbitrary edge against one arbitrary point
template<class S> static double wave(long i){ return 10+(i*7)%3+vc_int("w",0,2); }
template<class S> static void sequences(S& x,S& y){ long lo=std::is_same<S,PG>::value?3:2,n=vc_int("n",lo,lo+(vc_bool("long")?24:4)),m=vc_int("m",lo,lo+(vc_bool("long")?24:4)); bool rnd=vc_int("random",0,3)==0,swap=vc_bool("swap");
  long e=vc_int("e",0,n-2),f=vc_int("f",0,m-2);
  for(long i=0;i<n;++i) x.push_back(rnd?rp2("x","y"):P2{(double)i,(i==e||i==e+1)?3.:wave<S>(i)});
  for(long i=0;i<m;++i) y.push_back(rnd?rp2("x","y"):(i==f||i==f+1)?P2{e+.5,i==f?-3.:2.875}:P2{double(i-f+e),-wave<S>(i)});
  if(swap) std::swap(x,y); }
#endif
// ---- contracts: least distance over index ranges and of one edge against a whole sequence
#ifndef VC_NATIVE
static long eix(const P2* p,const P2* q,const P2* b,long n){ return q==b?n-1:p-b; }
template<class S> __attribute__((noinline)) double dr(const RG& r1,const S&,const RG& r2,const S&,const DC&){ return over(std::get<0>(r1),std::get<1>(r1),std::get<0>(r2),std::get<1>(r2)); }
template<class S> __attribute__((noinline)) double dbr(const S&,const S&,const DC&){ return over(0,gclosed?n1:n1-1,0,gclosed?n2:n2-1); }
template<class S> __attribute__((noinline)) double dsp(const P2& p,const P2& q,const S& o,const DC&){ if(&o==gy){ long i=eix(&p,&q,gx0,n1); return over(i,i+1,0,n2); } long j=eix(&p,&q,gy0,n2); return over(0,n1,j,j+1); }
template<class S> __attribute__((noinline)) double dsl(const P2& p,const P2& q,const S& o,const DC&){ if(&o==gy){ long i=eix(&p,&q,gx0,n1); return over(i,i+1,0,n2-1); } long j=eix(&p,&q,gy0,n2); return over(0,n1-1,j,j+1); }
template<class S> __attribute__((noinline)) double cr(const RG& r1,const S&,const RG& r2,const S&,sz& i,sz& j,double& s,double& t,P2& a,P2& b,const DC&){ return pick(std::get<0>(r1),std::get<1>(r1),std::get<0>(r2),std::get<1>(r2),i,j,s,t,a,b); }
template<class S> __attribute__((noinline)) double cbr(const S&,const S&,sz& i,sz& j,double& s,double& t,P2& a,P2& b,const DC&){ return pick(0,gclosed?n1:n1-1,0,gclosed?n2:n2-1,i,j,s,t,a,b); }
template<class S> __attribute__((noinline)) double csp(const P2& p,const P2& q,const S& o,sz& k,double& s,double& t,P2& a,P2& b,const DC&){ sz u; if(&o==gy){ long i=eix(&p,&q,gx0,n1); return pick(i,i+1,0,n2,u,k,s,t,a,b); } long j=eix(&p,&q,gy0,n2); return pick(0,n1,j,j+1,k,u,t,s,b,a); }
#endif
#ifdef VC_NATIVE
#define SEQS(T,lo) T x,y; sequences(x,y);
#else
#define SEQS(T,lo) SymSeq<T> u("x",lo),v("y",lo); const T &x=u.get(),&y=v.get();
#endif
typedef double (*DRG)(const RG&,const PG&,const RG&,const PG&,const DC&); typedef double (*DRL)(const RG&,const PL&,const RG&,const PL&,const DC&);
typedef double (*DBG)(const PG&,const PG&,const DC&); typedef double (*DBL)(const PL&,const PL&,const DC&);
typedef double (*DSG)(const P2&,const P2&,const PG&,const DC&); typedef double (*DSL)(const P2&,const P2&,const PL&,const DC&);
typedef double (*CRG)(const RG&,const PG&,const RG&,const PG&,sz&,sz&,double&,double&,P2&,P2&,const DC&); typedef double (*CRL)(const RG&,const PL&,const RG&,const PL&,sz&,sz&,double&,double&,P2&,P2&,const DC&);
typedef double (*CBG)(const PG&,const PG&,sz&,sz&,double&,double&,P2&,P2&,const DC&); typedef double (*CBL)(const PL&,const PL&,sz&,sz&,double&,double&,P2&,P2&,const DC&);
typedef double (*CSG)(const P2&,const P2&,const PG&,sz&,double&,double&,P2&,P2&,const DC&);
VC_MAIN(search_polygons){ SEQS(PG,3) box_contracts(x,y);
  CONTRACT(DRG,(subpolygon_subpolygon_distance_sqrd_brute<PG,PG,DC>),dr<PG>); CONTRACT(DBG,(polygon_polygon_distance_sqrd_brute<PG,PG,DC>),dbr<PG>); CONTRACT(DSG,(segment_polygon_distance_sqrd<P2,P2,PG,DC>),dsp<PG>);
  ENSURE(least(polygon_polygon_distance_sqrd(x,y,dcmp),x,y,true),"distance of two polygons is the least over all pairs of edges, closing edges included"); COVER("end"); }
VC_MAIN(search_polylines){ SEQS(PL,2) box_contracts(x,y);
  CONTRACT(DRL,(subpolyline_subpolyline_distance_sqrd_brute<PL,PL,DC>),dr<PL>); CONTRACT(DBL,(polyline_polyline_distance_sqrd_brute<PL,PL,DC>),dbr<PL>); CONTRACT(DSL,(segment_polyline_distance_sqrd<P2,P2,PL,DC>),dsl<PL>);
  ENSURE(least(polyline_polyline_distance_sqrd(x,y,dcmp),x,y,false),"distance of two polylines is the least over all pairs of segments"); COVER("end"); }
VC_MAIN(search_closest_polygons){ SEQS(PG,3) box_contracts(x,y); follow();
  CONTRACT(CRG,(polygon_polygon_closest_point_brute<PG,PG,double,P2,DC>),cr<PG>); CONTRACT(CBG,(polygon_polygon_closest_point_brute<PG,PG,double,P2,DC>),cbr<PG>); CONTRACT(CSG,(segment_polygon_closest_point<P2,P2,PG,double,P2,DC>),csp<PG>);
  double d=polygon_polygon_closest_point(x,y,oi,oj,os,ot,oa,ob,dcmp);
  ENSURE(least(d,x,y,true),"the closest points of two polygons are at the least distance over all pairs of edges, closing edges included"); ENSURE(witness(x,y,true,d,oi,oj,os,ot,oa,ob),"reported indices, parameters and points describe that closest pair"); COVER("end"); }
VC_MAIN(search_closest_polylines){ SEQS(PL,2) box_contracts(x,y); follow();
  CONTRACT(CRL,(polyline_polyline_closest_point_brute<PL,PL,double,P2,DC>),cr<PL>); CONTRACT(CBL,(polyline_polyline_closest_point_brute<PL,PL,double,P2,DC>),cbr<PL>);
  double d=polyline_polyline_closest_point(x,y,oi,oj,os,ot,oa,ob,dcmp);
  ENSURE(least(d,x,y,false),"the closest points of two polylines are at the least distance over all pairs of segments"); ENSURE(witness(x,y,false,d,oi,oj,os,ot,oa,ob),"reported indices, parameters and points describe that closest pair"); COVER("end"); }
