// CONTRACT: polygon_polygon_distance_sqrd_brute, subpolygon_subpolygon_distance_sqrd_brute, polyline_polyline_distance_sqrd_brute, subpolyline_subpolyline_distance_sqrd_brute, polygon_polygon_closest_point_brute, polyline_polyline_closest_point_brute - algorithm/distance (any number of points; one segment against the other sequence enters by the contract proved in C14_ranges)
#include "geo.h"
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
using DC=direct_comparison_policy; using RG=std::tuple<std::size_t,std::size_t>; using sz=std::size_t;
static double* gb; static long gn,lo,hi; static PG* og; static PL* ol; static RG orange; static int mode;   // mode: which kernel
static P2 V(long i){ return P2{vc_at(gb,i,0,2),vc_at(gb,i,1,2)}; }
#ifdef VC_NATIVE
static double K(const char* f,const P2& p,const P2& q){ sz k=0; double s=0,t=0; P2 c{0,0},d{0,0}; double r=mode==0?segment_polygon_closest_point(p,q,*og,k,s,t,c,d,dcmp):mode==1?segment_polygon_closest_point(p,q,orange,*og,k,s,t,c,d,dcmp):mode==2?segment_polyline_closest_point(p,q,*ol,k,s,t,c,d,dcmp):segment_polyline_closest_point(p,q,orange,*ol,k,s,t,c,d,dcmp);
  return *f=='d'?r:*f=='s'?s:*f=='t'?t:*f=='i'?(double)k:*f=='a'?(f[1]=='x'?c[0]:c[1]):(f[1]=='x'?d[0]:d[1]); }
static long KI(const P2& p,const P2& q){ return (long)K("i",p,q); }
#define CONTRACT(T,f,c)
#else
static double K(const char* f,const P2& p,const P2& q){ return vc_fn(f,4,p[0],p[1],q[0],q[1]); }
static long KI(const P2& p,const P2& q){ return vc_fn_int("i",0,1L<<40,4,p[0],p[1],q[0],q[1]); }
#define CONTRACT(T,f,c) vc_use_contract((void*)static_cast<T>(&f),(void*)static_cast<T>(&c))
#endif
template<class S> __attribute__((noinline)) double ksd(const P2& p,const P2& q,const S&,const DC&){ double r=K("d",p,q); vc_assume(r>=0); return r; }
template<class S> __attribute__((noinline)) double ksr(const P2& p,const P2& q,const RG&,const S&,const DC&){ double r=K("d",p,q); vc_assume(r>=0); return r; }
template<class S> __attribute__((noinline)) double kcd(const P2& p,const P2& q,const S&,sz& k,double& s,double& t,P2& c,P2& d,const DC&){ k=KI(p,q); s=K("s",p,q); t=K("t",p,q); c=P2{K("ax",p,q),K("ay",p,q)}; d=P2{K("bx",p,q),K("by",p,q)}; double r=K("d",p,q); vc_assume(r>=0); return r; }
template<class S> __attribute__((noinline)) double kcr(const P2& p,const P2& q,const RG&,const S&,sz& k,double& s,double& t,P2& c,P2& d,const DC&){ k=KI(p,q); s=K("s",p,q); t=K("t",p,q); c=P2{K("ax",p,q),K("ay",p,q)}; d=P2{K("bx",p,q),K("by",p,q)}; double r=K("d",p,q); vc_assume(r>=0); return r; }
typedef double (*GD)(const P2&,const P2&,const PG&,const DC&); typedef double (*GR)(const P2&,const P2&,const RG&,const PG&,const DC&); typedef double (*LD)(const P2&,const P2&,const PL&,const DC&); typedef double (*LR)(const P2&,const P2&,const RG&,const PL&,const DC&);
typedef double (*GC)(const P2&,const P2&,const PG&,sz&,double&,double&,P2&,P2&,const DC&); typedef double (*GX)(const P2&,const P2&,const RG&,const PG&,sz&,double&,double&,P2&,P2&,const DC&); typedef double (*LC)(const P2&,const P2&,const PL&,sz&,double&,double&,P2&,P2&,const DC&); typedef double (*LX)(const P2&,const P2&,const RG&,const PL&,sz&,double&,double&,P2&,P2&,const DC&);
static double at(const char* f,long i,long j){ return K(f,V(i),V(j)); }
extern "C" double st(double a,long j){ return mn(at("d",j,j+1),a); } extern "C" double sr(double a,long j){ return mn(at("d",lo+j+1,lo+j+2),a); }
static double G(long i){ return vc_fold("g",(void*)st,at("d",gn-1,0),i); } static double L(long i){ return vc_fold("l",(void*)sr,at("d",lo,lo+1),i); }
extern "C" bool cg(double a,long i){ return a==G(i); } extern "C" bool cl(double a,long i){ return a==L(i-lo-1); }
#define N(f) extern "C" bool n_##f(double a,long i){ return a==at(#f,i,i+1); } extern "C" bool c_##f(double a,long i){ return i==gn-1?a==at(#f,i,0):a==at(#f,i,i+1); }
N(d) N(s) N(t) N(ax) N(ay) N(bx) N(by)
extern "C" bool n_i(long k,long i){ return k==KI(V(i),V(i+1)); } extern "C" bool c_i(long k,long i){ return i==gn-1?k==KI(V(i),V(0)):k==KI(V(i),V(i+1)); }
#define CAND(p) vc_candidate("d",(void*)p##_d,"di"); vc_candidate("s",(void*)p##_s,"di"); vc_candidate("t",(void*)p##_t,"di"); vc_candidate("ax",(void*)p##_ax,"di"); vc_candidate("ay",(void*)p##_ay,"di"); vc_candidate("bx",(void*)p##_bx,"di"); vc_candidate("by",(void*)p##_by,"di"); vc_candidate("i",(void*)p##_i,"ii");
static PG theG; static PL theL;
static void setup(int m,bool closed){ vc_opt("loops","1"); mode=m;
#ifdef VC_NATIVE
  theG.clear(); theL.clear(); long k=vc_choice("k",3,6); for(long i=0;i<k;++i){ double x=R("ux"),y=R("uy"); theG.push_back(P2{x,y}); theL.push_back(P2{x,y}); } for(long i=0;i<k;++i){ P2 a=theG[i],b=theG[(i+1)%k]; vc_assume(a[0]!=b[0]||a[1]!=b[1]); }
  long a=vc_choice("a",0,k-2),b=vc_choice("b",1,k-1); vc_assume(a<b); orange=RG(a,b);
  for(long i=0;i<gn;++i) if(closed||i+1<gn){ P2 a=V(i),b=V((i+1)%gn); vc_assume(a[0]!=b[0]||a[1]!=b[1]); }
#else
  orange=RG(0,1);
#endif
  og=&theG; ol=&theL;
  CONTRACT(GD,(segment_polygon_distance_sqrd<P2,P2,PG,DC>),ksd<PG>); CONTRACT(LD,(segment_polyline_distance_sqrd<P2,P2,PL,DC>),ksd<PL>); CONTRACT(GR,(segment_subpolygon_distance_sqrd<P2,PG,DC>),ksr<PG>); CONTRACT(LR,(segment_subpolyline_distance_sqrd<P2,PL,DC>),ksr<PL>);
  CONTRACT(GC,(segment_polygon_closest_point<P2,P2,PG,double,P2,DC>),kcd<PG>); CONTRACT(GX,(segment_polygon_closest_point<P2,P2,PG,double,P2,DC>),kcr<PG>); CONTRACT(LC,(segment_polyline_closest_point<P2,P2,PL,double,P2,DC>),kcd<PL>); CONTRACT(LX,(segment_polyline_closest_point<P2,P2,PL,double,P2,DC>),kcr<PL>); }
static RG range(){ lo=vc_index("lo",gn); hi=vc_index("hi",gn); vc_assume(lo<hi); return RG(lo,hi); }
static const char* T="distance of two sequences is the least over the segments of the first one";
static void check(double d,double want,sz i1,sz i2,long a,long b,bool closed,double s,double t,const P2& c,const P2& e){ long i=(long)i1;
  ENSURE(eq(d,want),"the least distance over all pairs of segments"); bool in=(a<=i)&(i<b); ENSURE(in,"the reported index is that of a segment"); if(!in) return; long j=closed&&i==gn-1?0:i+1;
  ENSURE(eq(d,at("d",i,j))&eq(s,at("s",i,j))&eq(t,at("t",i,j))&bl((long)i2==KI(V(i),V(j)))&eq(c[0],at("ax",i,j))&eq(c[1],at("ay",i,j))&eq(e[0],at("bx",i,j))&eq(e[1],at("by",i,j)),"the reported indices, points and parameters are those of that pair"); COVER("end"); }
VC_MAIN(brute_polygons){ SymSeq<PG> q("v",3); gb=q.b; gn=q.n; setup(0,true); vc_candidate("min",(void*)cg,"di"); ENSURE(eq(polygon_polygon_distance_sqrd_brute(q.get(),*og,dcmp),G(gn-1)),T); COVER("end"); }
VC_MAIN(brute_polylines){ SymSeq<PL> q("v",2); gb=q.b; gn=q.n; lo=0; setup(2,false); vc_candidate("min",(void*)cl,"di"); ENSURE(eq(polyline_polyline_distance_sqrd_brute(q.get(),*ol,dcmp),L(gn-2)),T); COVER("end"); }
VC_MAIN(range_polygons){ SymSeq<PG> q("v",3); gb=q.b; gn=q.n; setup(1,true); RG r=range(); vc_candidate("min",(void*)cl,"di"); ENSURE(eq(subpolygon_subpolygon_distance_sqrd_brute(r,q.get(),orange,*og,dcmp),L(hi-lo-1)),T); COVER("end"); }
VC_MAIN(range_polylines){ SymSeq<PL> q("v",2); gb=q.b; gn=q.n; setup(3,false); RG r=range(); vc_candidate("min",(void*)cl,"di"); ENSURE(eq(subpolyline_subpolyline_distance_sqrd_brute(r,q.get(),orange,*ol,dcmp),L(hi-lo-1)),T); COVER("end"); }
VC_MAIN(closest_brute_polygons){ SymSeq<PG> q("v",3); gb=q.b; gn=q.n; setup(0,true); vc_candidate("min",(void*)cg,"di"); CAND(c) sz i,k; double s,t; P2 c,e; double d=polygon_polygon_closest_point_brute(q.get(),*og,i,k,s,t,c,e,dcmp); check(d,G(gn-1),i,k,0,gn,true,s,t,c,e); }
VC_MAIN(closest_brute_polylines){ SymSeq<PL> q("v",2); gb=q.b; gn=q.n; lo=0; setup(2,false); vc_candidate("min",(void*)cl,"di"); CAND(n) sz i,k; double s,t; P2 c,e; double d=polyline_polyline_closest_point_brute(q.get(),*ol,i,k,s,t,c,e,dcmp); check(d,L(gn-2),i,k,0,gn-1,false,s,t,c,e); }
VC_MAIN(closest_range_polygons){ SymSeq<PG> q("v",3); gb=q.b; gn=q.n; setup(1,true); RG r=range(); vc_candidate("min",(void*)cl,"di"); CAND(n) sz i,k; double s,t; P2 c,e; double d=polygon_polygon_closest_point_brute(r,q.get(),orange,*og,i,k,s,t,c,e,dcmp); check(d,L(hi-lo-1),i,k,lo,hi,false,s,t,c,e); }
VC_MAIN(closest_range_polylines){ SymSeq<PL> q("v",2); gb=q.b; gn=q.n; setup(3,false); RG r=range(); vc_candidate("min",(void*)cl,"di"); CAND(n) sz i,k; double s,t; P2 c,e; double d=polyline_polyline_closest_point_brute(r,q.get(),orange,*ol,i,k,s,t,c,e,dcmp); check(d,L(hi-lo-1),i,k,lo,hi,false,s,t,c,e); }
