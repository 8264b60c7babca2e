// CONTRACT: expression operators +, -, unary -, *, /, ^ over points and vectors; norm, mag, rec, <<= - algebra/expression_generator.hpp, algebra/functions/*.hpp
// CONTRACT: dot_product, scalar_projection, vector_projection, exterior_product_area (plane), exterior_product_volume, cross_product_at_index - algebra/*.hpp
// CONTRACT: magnitude(_sqrd) 1D-5D, normalize, normal_at_index, perp, left_normal, right_normal, oriented_normal, is_antiparallel, is_null - arithmetic/vector/*.hpp, tensor/is_null.hpp
#include "geo.h"
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/algebra/expression.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/arithmetic/vector/normalize_at_index.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
static B is(const V2& v,double x,double y){ return eq(v[0],x)&eq(v[1],y); }
static B is(const V3& v,double x,double y,double z){ return eq(v[0],x)&eq(v[1],y)&eq(v[2],z); }
VC_MAIN(linear2){
  V2 a=rv2("ax","ay"),b=rv2("bx","by"); P2 p=rp2("px","py"),q=rp2("qx","qy"); double s=R("s");
  V2 r0=a+b,r1=a-b,r2=-a,r3=s*a,r4=a*s; P2 r5=p+a,r6=p-a; V2 r7=p-q;
  ENSURE(is(r0,a[0]+b[0],a[1]+b[1])&is(r1,a[0]-b[0],a[1]-b[1])&is(r2,-a[0],-a[1]),"vector sum, difference and negation are componentwise");
  ENSURE(is(r3,s*a[0],s*a[1])&is(r4,s*a[0],s*a[1]),"scaling is componentwise on either side"); ENSURE(same(r5,P2{p[0]+a[0],p[1]+a[1]})&same(r6,P2{p[0]-a[0],p[1]-a[1]})&is(r7,p[0]-q[0],p[1]-q[1]),"point and vector combine as an affine space");
  V2 c=rv2("cx","cy"); c<<= a+s*(p-q)-2.0*b; ENSURE(is(c,a[0]+s*(p[0]-q[0])-2*b[0],a[1]+s*(p[1]-q[1])-2*b[1]),"nested expressions evaluate componentwise on assignment");
  V2 d=a; d<<= V2{d[1],d[0]}+d; ENSURE(is(d,a[0]+a[1],a[0]+a[1]),"assignment from a sum with itself");
  REQUIRE(ne(s,0)); V2 e=a/s; ENSURE(is(e,a[0]/s,a[1]/s),"division by a scalar is componentwise"); COVER("end");
}
VC_MAIN(linear3){
  V3 a=rv3("ax","ay","az"),b=rv3("bx","by","bz"),c=rv3("cx","cy","cz"); P3 p=rp3("px","py","pz"),q=rp3("qx","qy","qz"); double s=R("s");
  V3 r0=a+b,r1=a-b,r2=-a,r3=s*a,r4=a*s,r8=a^b; P3 r5=p+a,r6=p-a; V3 r7=p-q;
  ENSURE(is(r0,a[0]+b[0],a[1]+b[1],a[2]+b[2])&is(r1,a[0]-b[0],a[1]-b[1],a[2]-b[2])&is(r2,-a[0],-a[1],-a[2]),"space vector sum, difference and negation are componentwise");
  ENSURE(is(r3,s*a[0],s*a[1],s*a[2])&is(r4,s*a[0],s*a[1],s*a[2]),"space scaling is componentwise"); ENSURE(same(r5,P3{p[0]+a[0],p[1]+a[1],p[2]+a[2]})&same(r6,P3{p[0]-a[0],p[1]-a[1],p[2]-a[2]})&is(r7,p[0]-q[0],p[1]-q[1],p[2]-q[2]),"space points and vectors combine as an affine space");
  double kx=a[1]*b[2]-a[2]*b[1],ky=a[2]*b[0]-a[0]*b[2],kz=a[0]*b[1]-a[1]*b[0];
  ENSURE(is(r8,kx,ky,kz),"cross product"); ENSURE(eq(cross_product_at_index<0>(a,b),kx)&eq(cross_product_at_index<1>(a,b),ky)&eq(cross_product_at_index<2>(a,b),kz),"indexed cross product");
  double v; v<<=a*b; ENSURE(eq(v,a[0]*b[0]+a[1]*b[1]+a[2]*b[2]),"inner product operator"); v<<=(a^b)*c; ENSURE(eq(v,kx*c[0]+ky*c[1]+kz*c[2]),"triple product expression");
  ENSURE(eq(exterior_product_volume(a,b,c),kx*c[0]+ky*c[1]+kz*c[2]),"signed volume"); V3 e; e<<=(p-q)^(a-b); 
  ENSURE(eq(e[0]*(p[0]-q[0])+e[1]*(p[1]-q[1])+e[2]*(p[2]-q[2]),0)&eq(e[0]*(a[0]-b[0])+e[1]*(a[1]-b[1])+e[2]*(a[2]-b[2]),0),"cross product of expressions is orthogonal to both"); COVER("end");
}
VC_MAIN(products){
  V2 a=rv2("ax","ay"),b=rv2("bx","by"); V3 c=rv3("cx","cy","cz"),d=rv3("dx","dy","dz"); P2 p=rp2("px","py");
  ENSURE(eq(dot_product(a,b),a[0]*b[0]+a[1]*b[1])&eq(dot_product(c,d),c[0]*d[0]+c[1]*d[1]+c[2]*d[2]),"dot product"); ENSURE(eq(scalar_projection(a,b),dot_product(a,b)),"scalar projection onto a unit vector");
  ENSURE(eq(exterior_product_area(a,b),a[0]*b[1]-a[1]*b[0]),"signed area in the plane"); vector<double,4> x{R("x0"),R("x1"),R("x2"),R("x3")},y{R("y0"),R("y1"),R("y2"),R("y3")};
  ENSURE(eq(dot_product(x,y),x[0]*y[0]+x[1]*y[1]+x[2]*y[2]+x[3]*y[3]),"dot product in four dimensions"); vector<double,6> u{R("u0"),R("u1"),R("u2"),R("u3"),R("u4"),R("u5")};
  ENSURE(eq(dot_product(u,u),sq(u[0])+sq(u[1])+sq(u[2])+sq(u[3])+sq(u[4])+sq(u[5])),"dot product in six dimensions"); ENSURE(eq(magnitude_sqrd(u),dot_product(u,u))&eq(magnitude_sqrd(x),sq(x[0])+sq(x[1])+sq(x[2])+sq(x[3])),"squared magnitude in higher dimensions");
  COVER("end");
}
VC_MAIN(functions){
  V3 c=rv3("cx","cy","cz"); REQUIRE(ne(c[0],0)&ne(c[1],0)&ne(c[2],0)); V3 q; q<<=reciprocal(c); ENSURE(is(q,1/c[0],1/c[1],1/c[2]),"reciprocal of a vector"); V3 q2; q2<<=rec(c); ENSURE(is(q2,1/c[0],1/c[1],1/c[2]),"rec is the reciprocal"); COVER("end");
}
VC_MAIN(magnitudes){
  V2 a=rv2("ax","ay"); V3 c=rv3("cx","cy","cz"); double m=magnitude(a),n=magnitude(c),k; k<<=mag(a+a);
  ENSURE(eq(magnitude_sqrd(a),sq(a[0])+sq(a[1]))&eq(magnitude_sqrd(c),sq(c[0])+sq(c[1])+sq(c[2])),"squared magnitude"); ENSURE(le(0,m)&eq(m*m,sq(a[0])+sq(a[1])),"magnitude in the plane"); ENSURE(le(0,n)&eq(n*n,sq(c[0])+sq(c[1])+sq(c[2])),"magnitude in space");
  ENSURE(le(0,k)&eq(k*k,4*(sq(a[0])+sq(a[1]))),"magnitude of an expression"); bool z2=is_null(a,dcmp),z3=is_null(c,dcmp); ENSURE(iff(eq(a[0],0)&eq(a[1],0),bl(z2))&iff(eq(c[0],0)&eq(c[1],0)&eq(c[2],0),bl(z3)),"null exactly when every component is zero"); COVER("end");
}
// every non zero plane vector is L*(c,s) with (c,s) a unit vector
VC_MAIN(normalize2){
  double k=R("k"),L=Rpos("L"),f=vc_bool("flip")?-1:1,c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k); V2 v{L*c,L*s}; V2 n=normalize(v),e; e<<=norm(v);
  ENSURE(is(n,c,s),"normalising gives the unit vector of the same direction"); ENSURE(is(e,c,s),"normalising expression"); ENSURE(eq(magnitude(v),L),"magnitude of a scaled unit vector"); ENSURE(eq(normal_at_index<0>(v),c)&eq(normal_at_index<1>(v),s),"normalised component");
  V2 w=rv2("wx","wy"),pr=vector_projection(w,v); double t=w[0]*c+w[1]*s; ENSURE(is(pr,t*c,t*s),"projection lands on the line of the second vector");
  double m=R("m"),g=vc_bool("flip2")?-1:1,M=Rpos("M"),c2=g*(1-m*m)/(1+m*m),s2=g*2*m/(1+m*m); V2 u{M*c2,M*s2}; FAR(c*c2+s*s2,-1); ENSURE(iff(eq(c*c2+s*s2,-1),bl(is_antiparallel(u,v,dcmp))),"antiparallel exactly when the directions are opposite"); COVER("end");
}
// space: unit vector by inverse stereographic projection (every direction except one pole, reached by the flip)
VC_MAIN(normalize3){
  double k=R("k"),l=R("l"),L=Rpos("L"),f=vc_bool("flip")?-1:1,d=1+k*k+l*l,x=f*2*k/d,y=f*2*l/d,z=f*(k*k+l*l-1)/d; V3 v{L*x,L*y,L*z}; V3 n=normalize(v);
  ENSURE(is(n,x,y,z),"normalising in space"); ENSURE(eq(normal_at_index<2>(v),z)&eq(magnitude(v),L),"normalised component in space"); COVER("end");
}
VC_MAIN(normals){
  V2 a=rv2("ax","ay"); ENSURE(is(perp(a),-a[1],a[0])&is(left_normal(a),-a[1],a[0]),"left normal is the counter-clockwise quarter turn"); ENSURE(is(right_normal(a),a[1],-a[0]),"right normal is the clockwise quarter turn");
  ENSURE(is(oriented_normal<oriented_left>(a),-a[1],a[0])&is(oriented_normal<oriented_right>(a),a[1],-a[0]),"oriented normal names its side"); COVER("end");
}
VC_MAIN(midpoint){ P2 a=rp2("ax","ay"),b=rp2("bx","by"); P3 c=rp3("cx","cy","cz"),d=rp3("dx","dy","dz"); ENSURE(same(segment_mid_point(S2{a,b}),P2{(a[0]+b[0])/2,(a[1]+b[1])/2}),"segment mid point"); ENSURE(same(segment_mid_point(S3{c,d}),P3{(c[0]+d[0])/2,(c[1]+d[1])/2,(c[2]+d[2])/2}),"segment mid point in space"); COVER("end"); }
