// CONTRACT: geometrix::get_orientation (vectors, points), oriented_intersection, opposite_orientation - algorithm/orientation.hpp, orientation_enum.hpp
// CONTRACT: geometrix::is_collinear, is_between, is_collinear_point_between, is_vector_between, is_vertical, is_horizontal, get_slope, y_of_x, x_of_y - utility/utilities.hpp
#include "geo.h"
#include <geometrix/algorithm/linear_components_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
VC_MAIN(orientation_points){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"); double A=area2(a,b,c);
  auto o=get_orientation(a,b,c,dcmp);
  ENSURE(iff(lt(0,A),bl(o==oriented_left)),"left exactly when the turn is counter-clockwise"); ENSURE(iff(lt(A,0),bl(o==oriented_right)),"right exactly when the turn is clockwise"); ENSURE(iff(eq(A,0),bl(o==oriented_collinear)),"collinear exactly when the area vanishes");
  ENSURE(bl(get_orientation(b,c,a,dcmp)==o),"orientation is invariant under rotation of its arguments"); ENSURE(bl(get_orientation(b,a,c,dcmp)==opposite_orientation(o)),"swapping two points reverses the orientation");
  ENSURE(bl(get_orientation(V2{b[0]-a[0],b[1]-a[1]},V2{c[0]-a[0],c[1]-a[1]},dcmp)==o),"vector overload agrees");
  ENSURE(iff(eq(A,0),bl(is_collinear(a,b,c,dcmp))),"collinearity test is exact"); COVER("end");
}
VC_MAIN(orientation_tolerance){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"); double A=area2(a,b,c),e=Rpos("eps"); absolute_tolerance_comparison_policy<double> cmp(e);
  auto o=get_orientation(a,b,c,cmp);
  ENSURE(iff(lt(e,A),bl(o==oriented_left))&iff(lt(A,-e),bl(o==oriented_right)),"orientation under an absolute tolerance"); ENSURE(iff(le(A,e)&le(-e,A),bl(is_collinear(a,b,c,cmp))),"collinearity under an absolute tolerance"); COVER("end");
}
// c = a + s*(b-a) + w*perp(b-a)
VC_MAIN(between){
  P2 a=rp2("ax","ay"); double ux=R("ux"),uy=R("uy"),s=R("s"),w=R("w"); REQUIRE(ne(ux,0)|ne(uy,0)); bool inc=vc_bool("inc");
  P2 b{a[0]+ux,a[1]+uy},c{a[0]+s*ux-w*uy,a[1]+s*uy+w*ux};
  B want= eq(w,0)&(inc? le(0,s)&le(s,1) : lt(0,s)&lt(s,1));
  ENSURE(iff(want,bl(is_between(a,b,c,inc,dcmp))),"between exactly when on the segment"); COVER("end");
}
VC_MAIN(collinear_between){
  P2 a=rp2("ax","ay"); double ux=R("ux"),uy=R("uy"),s=R("s"); REQUIRE(ne(ux,0)|ne(uy,0)); bool inc=vc_bool("inc");
  P2 b{a[0]+ux,a[1]+uy},c{a[0]+s*ux,a[1]+s*uy};
  ENSURE(iff(inc? le(0,s)&le(s,1) : lt(0,s)&lt(s,1),bl(is_collinear_point_between(a,b,c,inc,dcmp))),"between exactly when on the segment (collinear form)"); COVER("end");
}
// b = b1*a + b2*perp(a), c = c1*a + c2*perp(a): sweep angles measured counter-clockwise from a
static int half(double x,double y){ return (y>0)|((y==0)&(x>0))?0:1; } // [0,pi) : 0, [pi,2pi) : 1
VC_MAIN(vector_between){
  double ax=R("ax"),ay=R("ay"),b1=R("b1"),b2=R("b2"),c1=R("c1"),c2=R("c2"); REQUIRE(ne(ax,0)|ne(ay,0)); REQUIRE(ne(b1,0)|ne(b2,0)); REQUIRE(ne(c1,0)|ne(c2,0)); bool inc=vc_bool("inc");
  V2 a{ax,ay},b{b1*ax-b2*ay,b1*ay+b2*ax},c{c1*ax-c2*ay,c1*ay+c2*ax};
  bool r=is_vector_between(a,b,c,inc,dcmp);
  double cb=c1*b2-c2*b1; B alongb=eq(cb,0)&lt(0,c1*b1+c2*b2), alonga=eq(c2,0)&lt(0,c1), bona=eq(b2,0)&lt(0,b1);
  int hc=half(c1,c2),hb=half(b1,b2);
  B lessang= hc!=hb ? bl(hc<hb) : lt(0,cb);
  B want= (alongb|alonga)&bl(inc) | (!alongb & !alonga & !bona & lessang);
  ENSURE(iff(want,bl(r)),"a vector is between two others exactly when the counter-clockwise sweep from the first to the second passes it"); COVER("end");
}
VC_MAIN(oriented){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s=R("s"),t=R("t"); double cr=cr2(ux,uy,vx,vy); REQUIRE(ne(cr,0)); REQUIRE(ne(s,0)&ne(s,1));
  P2 a{X-s*ux,Y-s*uy},b{X+(1-s)*ux,Y+(1-s)*uy},c{X-t*vx,Y-t*vy},d{X+(1-t)*vx,Y+(1-t)*vy};
  auto r=oriented_intersection(a,b,c,d,dcmp); B in=lt(0,s)&lt(s,1)&le(0,t)&le(t,1);
  ENSURE(iff(in&lt(0,cr),bl(r==e_intersect_left_right)),"left to right exactly when the first segment crosses the second from its left side");
  ENSURE(iff(in&lt(cr,0),bl(r==e_intersect_right_left)),"right to left exactly when the first segment crosses the second from its right side");
  ENSURE(imp(!in,bl(r==e_non_crossing)),"no oriented crossing otherwise"); COVER("end");
}
VC_MAIN(slopes){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"); S2 s{a,b};
  ENSURE(iff(eq(a[0],b[0]),bl(is_vertical(a,b,dcmp))&bl(is_vertical(s,dcmp)))&iff(eq(a[1],b[1]),bl(is_horizontal(a,b,dcmp))&bl(is_horizontal(s,dcmp))),"vertical and horizontal tests");
  REQUIRE(ne(a[0],b[0])); double x=R("x"),m=0; double y=y_of_x(a,b,x,m); P2 p{x,y};
  ENSURE(eq(area2(a,b,p),0)&eq(y,y_of_x(a,b,x)),"y_of_x is on the line"); ENSURE(eq(m*(b[0]-a[0]),b[1]-a[1])&eq(get_slope(a,b),m)&eq(get_slope(s),m),"slope is rise over run");
  if(a[1]!=b[1]){ double k=0,z=x_of_y(a,b,y,k); ENSURE(eq(z,x)&eq(k,m)&eq(x_of_y(a,b,y),x),"x_of_y inverts y_of_x"); COVER("inv"); } COVER("end");
}
