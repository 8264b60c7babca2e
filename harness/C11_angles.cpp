// CONTRACT: angle_from_a_to_b, vector_angle, normalize_angle_0_2pi(_copy), normalize_angle_minus_pi_to_pi(_copy) - utility/utilities.hpp
// CONTRACT: make_rotation_matrix, rotate_point, rotate_vector (matrix and two-vector forms) - algorithm/rotation.hpp
// CONTRACT: vector_angle_compare, point_angle_compare, pseudo_angle - utility/vector_angle_compare.hpp, utility/point_angle_compare.hpp
// ASSUMES: atan2 is known by its range, the signs of its arguments and its value on the axes
#include "geo.h"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
static V2 unit(const char* n){ double k=R(n),f=vc_bool("flip")?-1:1; return V2{f*(1-k*k)/(1+k*k),f*2*k/(1+k*k)}; }
static P2 at(const P2& c,const V2& d,double x,double y){ return P2{c[0]+x*d[0]-y*d[1],c[1]+x*d[1]+y*d[0]}; }
static const double PI_=3.14159265358979323846;
VC_MAIN(angle_of){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"); double x=b[0]-a[0],y=b[1]-a[1]; double t=angle_from_a_to_b(a,b); ENSURE(eq(t,std::atan2(y,x)),"angle from a to b is that of the difference"); ENSURE(eq(vector_angle(V2{x,y}),std::atan2(y,x)),"angle of a vector"); 
  FAR(x,0); FAR(y,0); ENSURE(iff(gt(y,0),gt(t,0)&lt(t,PI_))&iff(lt(y,0),lt(t,0)),"upper directions have positive angles"); ENSURE(imp(gt(x,0),lt(ab(t),PI_/2))&imp(lt(x,0),gt(ab(t),PI_/2)),"right directions have acute angles"); COVER("end");
}
VC_MAIN(normalize_0_2pi){
  double a=R("a"),r=a,T=2*PI_; FAR(a,0); FAR(a,T); FAR(a/T,std::floor(a/T)); FAR(a/T,std::floor(a/T)+1); normalize_angle_0_2pi(r); ENSURE(le(0,r)&le(r,T),"normalised angle is in [0,2pi]"); double n=(a-r)/T; 
#ifdef VC_NATIVE
  n=std::round(n); ENSURE(eq(a-r,n*T),"normalised angle differs by whole turns");
#else
  ENSURE(eq(std::floor(n),n),"normalised angle differs by whole turns");
#endif
  ENSURE(imp(le(0,a)&le(a,T),eq(r,a)),"an angle in range is kept"); ENSURE(eq(normalize_angle_0_2pi_copy(a),r),"copy form agrees"); COVER("end");
}
VC_MAIN(normalize_pi){
  double a=R("a"),r=a,T=2*PI_; FAR(a/PI_,std::floor(a/PI_)); FAR(a/PI_,std::floor(a/PI_)+1); normalize_angle_minus_pi_to_pi(r); ENSURE(le(-PI_,r)&le(r,PI_),"normalised angle is in [-pi,pi]"); double n=(a-r)/T;
#ifdef VC_NATIVE
  n=std::round(n); ENSURE(eq(a-r,n*T),"normalised angle differs by whole turns");
#else
  ENSURE(eq(std::floor(n),n),"normalised angle differs by whole turns");
#endif
  ENSURE(imp(lt(-PI_,a)&le(a,PI_),eq(r,a)),"an angle in range is kept"); ENSURE(eq(normalize_angle_minus_pi_to_pi_copy(a),r),"copy form agrees"); COVER("end");
}
VC_MAIN(rotation){
  V2 a=unit("k"),b=unit("j"); P2 o=rp2("ox","oy"); double x=R("x"),y=R("y"); auto m=make_rotation_matrix(a,b); P2 p=at(o,a,x,y); V2 v{p[0]-o[0],p[1]-o[1]}; P2 w=at(o,b,x,y); V2 u{w[0]-o[0],w[1]-o[1]};
  ENSURE(eq(m[0][0],m[1][1])&eq(m[0][1],-m[1][0])&eq(m[0][0]*m[1][1]-m[0][1]*m[1][0],1),"a rotation matrix keeps lengths and orientation");
  ENSURE(same(rotate_point(p,m,o),w)&same(rotate_point(p,a,b,o),w),"a point is turned about the origin with the angle from the first to the second direction");
  V2 r=rotate_vector(v,m),r2=rotate_vector(v,a,b); ENSURE(eq(r[0],u[0])&eq(r[1],u[1])&eq(r2[0],u[0])&eq(r2[1],u[1]),"a vector is turned with the angle from the first to the second direction"); COVER("end");
}
VC_MAIN(b_rotate_points){
  V2 a=unit("k"),b=unit("j"),s=rv2("sx","sy"); P2 o=rp2("ox","oy"); polygon<P2> g; double x[3],y[3]; for(int i=0;i<3;++i){ x[i]=R("x"); y[i]=R("y"); g.push_back(at(o,a,x[i],y[i])); }
  auto r=rotate_points(g,a,b,o); auto t=rotate_translate_points(g,a,b,s,o); ENSURE(bl(r.size()==3&&t.size()==3),"every point is turned"); for(int i=0;i<3;++i){ P2 w=at(o,b,x[i],y[i]); ENSURE(same(r[i],w),"points are turned in order"); ENSURE(same(t[i],P2{w[0]+s[0],w[1]+s[1]}),"points are turned, then moved"); } COVER("end");
}
// counter-clockwise order from the reference direction: quarter class, then the sign of the cross product
static double cls(double x,double y){ return y>0?1:y<0?3:x<0?2:0; }
static B before(double ax,double ay,double bx,double by){ double p=cls(ax,ay),q=cls(bx,by); return lt(p,q)|(eq(p,q)&(eq(p,1)|eq(p,3))&gt(cr2(ax,ay,bx,by),0)); }
VC_MAIN(vector_order){
  double rx=R("rx"),ry=R("ry"),ax=R("ax"),ay=R("ay"),bx=R("bx"),by=R("by"); REQUIRE((ne(rx,0)|ne(ry,0))&(ne(ax,0)|ne(ay,0))&(ne(bx,0)|ne(by,0))); FAR(ay,0); FAR(by,0); FAR(ax,0); FAR(bx,0); FAR(ax*by,ay*bx);
  V2 a{ax*rx-ay*ry,ax*ry+ay*rx},b{bx*rx-by*ry,bx*ry+by*rx}; vector_angle_compare<direct_comparison_policy> c(V2{rx,ry},dcmp); ENSURE(iff(before(ax,ay,bx,by),bl(c(a,b))),"vectors are ordered counter-clockwise from the reference"); COVER("end");
}
VC_MAIN(vector_order_default){ double ax=R("ax"),ay=R("ay"),bx=R("bx"),by=R("by"); REQUIRE((ne(ax,0)|ne(ay,0))&(ne(bx,0)|ne(by,0))); FAR(ax*by,ay*bx); vector_angle_compare<direct_comparison_policy> c; ENSURE(iff(before(ax,ay,bx,by),bl(c(V2{ax,ay},V2{bx,by}))),"vectors are ordered counter-clockwise from the x axis"); 
  P2 o=rp2("ox","oy"); point_angle_compare<direct_comparison_policy> pc(o); FAR(ax,0); FAR(ay,0); FAR(bx,0); FAR(by,0); ENSURE(iff(before(ax,ay,bx,by),bl(pc(P2{o[0]+ax,o[1]+ay},P2{o[0]+bx,o[1]+by}))),"points are ordered counter-clockwise about the origin given"); COVER("end"); }
VC_MAIN(pseudo){ double ax=R("ax"),ay=R("ay"),bx=R("bx"),by=R("by"); REQUIRE((ne(ax,0)|ne(ay,0))&(ne(bx,0)|ne(by,0))); FAR(ax*by,ay*bx); FAR(ax,0); FAR(bx,0); FAR(ay,0); FAR(by,0); double p=pseudo_angle(V2{ax,ay}),q=pseudo_angle(V2{bx,by}); ENSURE(iff(before(ax,ay,bx,by),lt(p,q)),"pseudo angles grow counter-clockwise from the x axis"); ENSURE(le(0,p)&lt(p,4),"pseudo angle range"); COVER("end"); }
VC_MAIN(order_laws){ double ax=R("ax"),ay=R("ay"),bx=R("bx"),by=R("by"),cx=R("cx"),cy=R("cy"); REQUIRE((ne(ax,0)|ne(ay,0))&(ne(bx,0)|ne(by,0))&(ne(cx,0)|ne(cy,0))); B ab_=before(ax,ay,bx,by),bc=before(bx,by,cx,cy),ac=before(ax,ay,cx,cy),ba=before(bx,by,ax,ay),cb=before(cx,cy,bx,by),ca=before(cx,cy,ax,ay);
  ENSURE(!before(ax,ay,ax,ay)&!(ab_&ba),"irreflexive and asymmetric"); ENSURE(imp(ab_&bc,ac),"transitive"); ENSURE(imp(!ab_&!ba&!bc&!cb,!ac&!ca),"equal directions form classes"); COVER("end"); }
