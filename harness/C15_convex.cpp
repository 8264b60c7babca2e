// DEPENDS: C03_orientation.cpp
// CONTRACT: point_in_polygon (meaning of the crossing parity on triangles and convex quadrilaterals), point_in_triangle (plane and space), point_in_convex_quadrilateral, point_in_convex_polygon - algorithm/point_in_polygon.hpp
#include "geo.h"
#include <geometrix/algorithm/point_in_polygon.hpp>
static bool ccw(const P2& a,const P2& b,const P2& c){ return area2(a,b,c)>0; }
VC_MAIN(small){ int n=vc_choice("n",0,2); PG g; for(int i=0;i<n;++i){ double x=R("x"),y=R("y"); g.push_back(P2{x,y}); } double x=R("px"),y=R("py"); ENSURE(bl(!point_in_polygon(P2{x,y},g)),"fewer than three points hold nothing"); COVER("end"); }
VC_MAIN(triangle){ P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),p=rp2("px","py"); double u=area2(a,b,p),v=area2(b,c,p),w=area2(c,a,p); FAR(u,0); FAR(v,0); FAR(w,0); FAR(area2(a,b,c),0); 
  REQUIRE(ne(area2(a,b,c),0)); B in=(gt(u,0)&gt(v,0)&gt(w,0))|(lt(u,0)&lt(v,0)&lt(w,0)), out=(gt(area2(a,b,c),0)&(lt(u,0)|lt(v,0)|lt(w,0)))|(lt(area2(a,b,c),0)&(gt(u,0)|gt(v,0)|gt(w,0)));
  PG g; g.push_back(a); g.push_back(b); g.push_back(c); B r=bl(point_in_polygon(p,g)); ENSURE(imp(in,r),"a point strictly inside a triangle is inside"); ENSURE(imp(out,!r),"a point strictly outside a triangle is not inside");
  COVER("end"); }
VC_MAIN(tri2){ P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),p=rp2("px","py"); double u=area2(a,b,p),v=area2(b,c,p),w=area2(c,a,p); FAR(u,0); FAR(v,0); FAR(w,0); REQUIRE(gt(area2(a,b,c),0));
  ENSURE(iff(bl(point_in_triangle(p,a,b,c,dcmp)),ge(u,0)&ge(v,0)&ge(w,0)),"a point is in a counter clockwise triangle exactly when it is on the inner side of every edge (border included)");
  double e=Rpos("e"); absolute_tolerance_comparison_policy<double> t(e); FAR(u,-e); FAR(v,-e); FAR(w,-e); ENSURE(iff(bl(point_in_triangle(p,a,b,c,t)),ge(u,-e)&ge(v,-e)&ge(w,-e)),"a tolerance widens each side by exactly the tolerance"); COVER("end"); }
VC_MAIN(tri3){ P3 a=rp3("ax","ay","az"); V3 e=rv3("ex","ey","ez"),f=rv3("fx","fy","fz"); double s=R("s"),t=R("t"); FAR(s,0); FAR(t,0); FAR(s+t,1); 
  double nx=e[1]*f[2]-e[2]*f[1],ny=e[2]*f[0]-e[0]*f[2],nz=e[0]*f[1]-e[1]*f[0]; REQUIRE(gt(sq(nx)+sq(ny)+sq(nz),0)); FAR(sq(nx)+sq(ny)+sq(nz),0);
  P3 b{a[0]+e[0],a[1]+e[1],a[2]+e[2]},c{a[0]+f[0],a[1]+f[1],a[2]+f[2]},p{a[0]+s*e[0]+t*f[0],a[1]+s*e[1]+t*f[1],a[2]+s*e[2]+t*f[2]};
  bool r=point_in_triangle(p,a,b,c,dcmp); ENSURE(iff(bl(r),ge(s,0)&ge(t,0)&le(s+t,1)),"a point of the plane of the triangle is reported exactly when it is in the closed triangle"); COVER("end"); }
VC_MAIN(quad){ P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),d=rp2("dx","dy"),p=rp2("px","py"); REQUIRE(gt(area2(a,b,c),0)&gt(area2(b,c,d),0)&gt(area2(c,d,a),0)&gt(area2(d,a,b),0));
  double k=area2(a,b,p),l=area2(b,c,p),m=area2(c,d,p),n=area2(d,a,p); FAR(k,0); FAR(l,0); FAR(m,0); FAR(n,0); FAR(area2(a,c,p),0); PG g; g.push_back(a); g.push_back(b); g.push_back(c); g.push_back(d);
  ENSURE(iff(bl(point_in_convex_quadrilateral(p,g,dcmp)),ge(k,0)&ge(l,0)&ge(m,0)&ge(n,0)),"a point is in a convex quadrilateral exactly when it is on the inner side of every edge (border included)"); COVER("end"); }
VC_MAIN(quad_crossings){ P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),d=rp2("dx","dy"),p=rp2("px","py"); REQUIRE(gt(area2(a,b,c),0)&gt(area2(b,c,d),0)&gt(area2(c,d,a),0)&gt(area2(d,a,b),0));
  double k=area2(a,b,p),l=area2(b,c,p),m=area2(c,d,p),n=area2(d,a,p); FAR(k,0); FAR(l,0); FAR(m,0); FAR(n,0); FAR(p[1],a[1]); FAR(p[1],b[1]); FAR(p[1],c[1]); FAR(p[1],d[1]); PG g; g.push_back(a); g.push_back(b); g.push_back(c); g.push_back(d); bool r=point_in_polygon(p,g);
  ENSURE(imp(gt(k,0)&gt(l,0)&gt(m,0)&gt(n,0),bl(r)),"a point strictly inside a convex quadrilateral is inside"); ENSURE(imp(lt(k,0)|lt(l,0)|lt(m,0)|lt(n,0),bl(!r)),"a point strictly outside a convex quadrilateral is not inside"); COVER("end"); }
static void convex(int n){ P2 v[8]; PG g; for(int i=0;i<n;++i){ double x=R("x"),y=R("y"); v[i]=P2{x,y}; g.push_back(v[i]); }
  for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) for(int k=j+1;k<n;++k) { double a=area2(v[i],v[j],v[k]); FAR(a,0); REQUIRE(gt(a,0)); } P2 p=rp2("px","py"); B in=bl(true); 
  for(int i=0;i<n;++i){ double a=area2(v[i],v[(i+1)%n],p); FAR(a,0); in&=ge(a,0); } for(int i=0;i<n;++i) for(int j=0;j<i;++j) FAR(area2(v[i],v[j],p),0);
  ENSURE(iff(bl(point_in_convex_polygon(p,g,dcmp)),in),"a point is in a convex polygon exactly when it is on the inner side of every edge (border included)"); COVER("end"); }
VC_MAIN(b_convex3){ convex(3); }
VC_MAIN(b_convex4){ convex(4); }
// five and more vertices: over the contract of get_orientation (proved in C03), which answers by the sign of twice the signed area A(i,j) of two vertices and the point.
// Known of the areas of a convex polygon: A(j,i)=-A(i,j), A(i,j)+A(j,k)+A(k,i) is the (positive) area of the triangle ijk, and a point of a triangle of vertices is on the inner side of every edge (lemma below)
VC_MAIN(triangle_lemma){ P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),u=rp2("ux","uy"),v=rp2("vx","vy"),p=rp2("px","py"); double s=area2(a,b,p),t=area2(b,c,p),r=area2(c,a,p),T=area2(a,b,c);
  ENSURE(eq(T*area2(u,v,p),t*area2(u,v,a)+r*area2(u,v,b)+s*area2(u,v,c))&eq(T,s+t+r),"barycentric coordinates"); COVER("end"); }
VC_MAIN(triangle_lemma2){ double T=Rpos("T"),s=Rnn("s"),t=Rnn("t"),r=Rnn("r"),x=Rnn("x"),y=Rnn("y"),z=Rnn("z"),k=R("k"); FAR(k,0); REQUIRE(eq(T*k,t*x+r*y+s*z)); ENSURE(ge(k,0),"a point of a triangle of vertices is on the inner side of every edge"); COVER("end"); }
static const double* base; static double Am[8][8];
__attribute__((noinline)) static orientation_type orient(const P2& a,const P2& b,const P2&,const direct_comparison_policy&){ long i=((const double*)&a-base)/2,j=((const double*)&b-base)/2; double x=Am[i][j]; if(x>0){ COVER("left"); return oriented_left; } if(x<0){ COVER("right"); return oriented_right; } COVER("on"); return oriented_collinear; }
static void convexn(int n){
#ifdef VC_NATIVE
  P2 v[8]; PG g; double x=R("x"),m=R("m"); for(int i=0;i<n;++i){ v[i]=P2{x,x*x+m*x}; g.push_back(v[i]); x+=0.25+std::fabs(R("d")); } P2 p=rp2("px","py"); B in=bl(true);
  for(int i=0;i<n;++i){ double a=area2(v[i],v[(i+1)%n],p); FAR(a,0); in&=ge(a,0); } for(int i=0;i<n;++i) for(int j=0;j<i;++j) FAR(area2(v[i],v[j],p),0);
  ENSURE(iff(bl(point_in_convex_polygon(p,g,dcmp)),in),"a point is in a convex polygon exactly when it is on the inner side of every edge (border included)");
#else
  vc_use_contract((void*)static_cast<orientation_type(*)(const P2&,const P2&,const P2&,const direct_comparison_policy&)>(&get_orientation<P2,P2,P2,direct_comparison_policy>),(void*)&orient);
  PG g; for(int i=0;i<n;++i) g.push_back(P2{0.,0.}); base=(const double*)&g[0]; for(int i=0;i<n;++i){ Am[i][i]=0; for(int j=i+1;j<n;++j){ double x=R("A"); Am[i][j]=x; Am[j][i]=-x; } }
  bool in=vc_bool("in"); { B all=bl(true); for(int i=0;i<n;++i) all&=ge(Am[i][(i+1)%n],0); REQUIRE(iff(bl(in),all)); }
  for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) for(int k=j+1;k<n;++k){ REQUIRE(gt(Am[i][j]+Am[j][k]+Am[k][i],0)); REQUIRE(imp(ge(Am[i][j],0)&ge(Am[j][k],0)&ge(Am[k][i],0),in)); }
  ENSURE(iff(bl(point_in_convex_polygon(P2{0.,0.},g,dcmp)),in),"a point is in a convex polygon exactly when it is on the inner side of every edge (border included)"); COVER("end");
#endif
}
VC_MAIN(b_convex5){ convexn(5); }
VC_MAIN(b_convex6){ convexn(6); }
VC_MAIN(b_convex7){ convexn(7); }
VC_MAIN(b_convex8){ convexn(8); }
