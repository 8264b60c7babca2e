// CONTRACT: geometrix::point_aabb_distance(_sqrd), point_aabb_closest_point 2D/3D - algorithm/distance/point_aabb_distance.hpp
// CONTRACT: geometrix::aabb_aabb_distance(_sqrd) 2D - algorithm/distance/aabb_aabb_distance.hpp
// CONTRACT: geometrix::point_obb_distance(_sqrd), point_obb_closest_point; oriented_bounding_box accessors; make_obb - algorithm/distance/point_obb_distance.hpp, primitive/oriented_bounding_box.hpp
// CONTRACT: geometrix::line constructors/accessors, point_line_distance, signed_point_line_distance - primitive/line.hpp, algorithm/distance/point_line_distance.hpp
#include "geo.h"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
using AABB2=axis_aligned_bounding_box<P2>; using AABB3=axis_aligned_bounding_box<P3>; using OBB=oriented_bounding_box<P2,V2>;
static double exc(double x,double l,double h){ return x<l?x-l:x>h?x-h:0; }
static double cl(double x,double l,double h){ return x<l?l:x>h?h:x; }
VC_MAIN(point_aabb2){
  P2 l=rp2("lx","ly"); double w=Rnn("w"),h=Rnn("h"); P2 u{l[0]+w,l[1]+h},p=rp2("px","py"); AABB2 b(l,u);
  double want=sq(exc(p[0],l[0],u[0]))+sq(exc(p[1],l[1],u[1])); 
  ENSURE(eq(point_aabb_distance_sqrd(p,b),want),"squared distance to a box"); double d=point_aabb_distance(p,b); ENSURE(le(0,d)&eq(d*d,want),"distance to a box");
  ENSURE(same(point_aabb_closest_point(p,b),P2{cl(p[0],l[0],u[0]),cl(p[1],l[1],u[1])}),"closest point of a box"); COVER("end");
}
VC_MAIN(point_aabb3){
  P3 l=rp3("lx","ly","lz"); double w=Rnn("w"),h=Rnn("h"),z=Rnn("z"); P3 u{l[0]+w,l[1]+h,l[2]+z},p=rp3("px","py","pz"); AABB3 b(l,u);
  double want=sq(exc(p[0],l[0],u[0]))+sq(exc(p[1],l[1],u[1]))+sq(exc(p[2],l[2],u[2]));
  ENSURE(eq(point_aabb_distance_sqrd(p,b),want),"squared distance to a box in space"); double d=point_aabb_distance(p,b); ENSURE(le(0,d)&eq(d*d,want),"distance to a box in space");
  ENSURE(same(point_aabb_closest_point(p,b),P3{cl(p[0],l[0],u[0]),cl(p[1],l[1],u[1]),cl(p[2],l[2],u[2])}),"closest point of a box in space"); COVER("end");
}
VC_MAIN(aabb_aabb){
  P2 l=rp2("lx","ly"),m=rp2("mx","my"); double w=Rnn("w"),h=Rnn("h"),x=Rnn("x"),y=Rnn("y");
  AABB2 a(l,P2{l[0]+w,l[1]+h}),b(m,P2{m[0]+x,m[1]+y});
  double gx=mx(0,mx(m[0]-(l[0]+w),l[0]-(m[0]+x))),gy=mx(0,mx(m[1]-(l[1]+h),l[1]-(m[1]+y)));
  ENSURE(eq(aabb_aabb_distance_sqrd(a,b),gx*gx+gy*gy),"squared distance of two boxes"); double d=aabb_aabb_distance(a,b); ENSURE(le(0,d)&eq(d*d,gx*gx+gy*gy),"distance of two boxes"); COVER("end");
}
// unit axes: (1-k^2,2k)/(1+k^2) is every unit vector except (-1,0); the sign handles both handednesses and the missing one
static OBB robb(double& k,double& c,double& s,double& hand,double& a,double& b,P2& o){
  o=rp2("ox","oy"); k=R("k"); double f=vc_bool("flip")?-1:1; hand=vc_bool("hand")?-1:1; a=Rnn("a"); b=Rnn("b");
  c=f*(1-k*k)/(1+k*k); s=f*2*k/(1+k*k); return OBB(o,V2{c,s},V2{-hand*s,hand*c},a,b);
}
VC_MAIN(point_obb){
  double k,c,s,hd,a,b; P2 o; OBB box=robb(k,c,s,hd,a,b,o); double x=R("x"),y=R("y");
  P2 p{o[0]+x*c-y*hd*s,o[1]+x*s+y*hd*c};
  double want=sq(exc(x,-a,a))+sq(exc(y,-b,b)); double qx=cl(x,-a,a),qy=cl(y,-b,b);
  ENSURE(eq(point_obb_distance_sqrd(p,box),want),"squared distance to an oriented box"); double d=point_obb_distance(p,box); ENSURE(le(0,d)&eq(d*d,want),"distance to an oriented box");
  ENSURE(same(point_obb_closest_point(p,box),P2{o[0]+qx*c-qy*hd*s,o[1]+qx*s+qy*hd*c}),"closest point of an oriented box"); COVER("end");
}
VC_MAIN(obb_corners){
  double k,c,s,hd,a,b; P2 o; OBB box=robb(k,c,s,hd,a,b,o); long i=vc_choice("i",0,3);
  double x= i==0||i==3?-a:a, y= i==0||i==1?-b:b; 
  ENSURE(same(box[i],P2{o[0]+x*c-y*hd*s,o[1]+x*s+y*hd*c}),"corners of an oriented box"); ENSURE(same(box.get_rectangle()[i],box[i]),"rectangle of an oriented box");
  ENSURE(same(box.get_center(),o)&eq(box.get_halfwidth(0),a)&eq(box.get_halfwidth(1),b)&bl(box.size()==4),"oriented box accessors"); 
  P2 n=rp2("nx","ny"); box.set_center(n); ENSURE(same(box[i],P2{n[0]+x*c-y*hd*s,n[1]+x*s+y*hd*c}),"moving the centre moves every corner"); COVER("end");
}
VC_MAIN(obb_from_rectangle){
  double ox=R("ox"),oy=R("oy"),k=R("k"),a=Rpos("a"),b=Rpos("b"); double f=vc_bool("flip")?-1:1; double c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k);
  rectangle<P2> r{P2{ox,oy},P2{ox+a*c,oy+a*s},P2{ox+a*c-b*s,oy+a*s+b*c},P2{ox-b*s,oy+b*c}};
  auto box=make_obb<P2,V2>(r); ENSURE(eq(box.get_halfwidth(0),a/2)&eq(box.get_halfwidth(1),b/2),"half widths from a rectangle");
  long i=vc_choice("i",0,3); ENSURE(same(box[i],r[i]),"an oriented box made from a rectangle has its corners"); COVER("end");
}
VC_MAIN(point_line){
  double ax=R("ax"),ay=R("ay"),k=R("k"),x=R("x"),y=R("y"),L=Rpos("L"); double f=vc_bool("flip")?-1:1; double c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k);
  P2 a{ax,ay}; P2 p{ax+x*c-y*s,ay+x*s+y*c}; V2 dir{L*c,L*s}; long w=vc_choice("ctor",0,2); P2 b{ax+L*c,ay+L*s};
  line<P2> l= w==0?line<P2>(a,dir): w==1?line<P2>(a,b): line<P2>(S2{a,b});
  ENSURE(eq(l.get_parallel_vector()[0],c)&eq(l.get_parallel_vector()[1],s),"line direction is the unit direction"); ENSURE(eq(l.get_normal_vector()[0],-s)&eq(l.get_normal_vector()[1],c),"line normal is the left normal");
  ENSURE(same(l.get_reference_point(),a)&eq(l.get_distance_to_origin(),-ax*s+ay*c),"line reference point and offset");
  ENSURE(eq(signed_point_line_distance(p,l),y),"signed distance is positive to the left"); ENSURE(eq(point_line_distance(p,l),y<0?-y:y),"distance to a line"); COVER("end");
}
