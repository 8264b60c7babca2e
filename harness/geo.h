#pragma once
#include "vc.h"
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/point_traits.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/segment_traits.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
using namespace geometrix; using namespace vc;
using P2=point<double,2>; using P3=point<double,3>; using V2=vector<double,2>; using V3=vector<double,3>;
using S2=segment<P2>; using S3=segment<P3>;
static const direct_comparison_policy dcmp;
inline P2 rp2(const char* x,const char* y){ double a=R(x),b=R(y); return P2{a,b}; }
inline P3 rp3(const char* x,const char* y,const char* z){ double a=R(x),b=R(y),c=R(z); return P3{a,b,c}; }
inline V2 rv2(const char* x,const char* y){ double a=R(x),b=R(y); return V2{a,b}; }
inline V3 rv3(const char* x,const char* y,const char* z){ double a=R(x),b=R(y),c=R(z); return V3{a,b,c}; }
inline double cr2(double ax,double ay,double bx,double by){ return ax*by-ay*bx; }
// twice the signed area of (a,b,c)
inline double area2(const P2& a,const P2& b,const P2& c){ return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]); }
inline double dist2(const P2& a,const P2& b){ return sq(a[0]-b[0])+sq(a[1]-b[1]); }
inline double dist2(const P3& a,const P3& b){ return sq(a[0]-b[0])+sq(a[1]-b[1])+sq(a[2]-b[2]); }
// x lies on the closed segment ab
inline B onseg(const P2& x,const P2& a,const P2& b){
  return eq(area2(a,b,x),0) & le((x[0]-a[0])*(x[0]-b[0])+(x[1]-a[1])*(x[1]-b[1]),0);
}
inline B online(const P2& x,const P2& a,const P2& b){ return eq(area2(a,b,x),0); }
inline B same(const P2& a,const P2& b){ return eq(a[0],b[0])&eq(a[1],b[1]); }
inline B same(const P3& a,const P3& b){ return eq(a[0],b[0])&eq(a[1],b[1])&eq(a[2],b[2]); }
inline B par3(const P3& x,const P3& a,const P3& b){
  double ux=b[0]-a[0],uy=b[1]-a[1],uz=b[2]-a[2],wx=x[0]-a[0],wy=x[1]-a[1],wz=x[2]-a[2];
  return eq(uy*wz-uz*wy,0)&eq(uz*wx-ux*wz,0)&eq(ux*wy-uy*wx,0);
}
inline B onseg(const P3& x,const P3& a,const P3& b){
  return par3(x,a,b) & le((x[0]-a[0])*(x[0]-b[0])+(x[1]-a[1])*(x[1]-b[1])+(x[2]-a[2])*(x[2]-b[2]),0);
}
// ---- sequences of any length: a real polygon / polyline object over n arbitrary points (n unbounded in the proof)
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
template<class Seq,int K=2> struct SymSeq{ double* b; long n; struct{ const double* b; const double* e; const double* c; } raw;
  SymSeq(const char* nm,long lo){ n=vc_size("n",lo); b=vc_array(nm,n,K); raw.b=b; raw.e=raw.c=b+K*n; static_assert(sizeof(raw)==sizeof(Seq)&&sizeof(typename Seq::value_type)==K*sizeof(double),"layout"); }
  const Seq& get()const{ return reinterpret_cast<const Seq&>(raw); }
  template<class T> const T& as()const{ return reinterpret_cast<const T&>(raw); } };
using PG=polygon<P2>; using PL=polyline<P2>; using PL3=polyline<P3>;
