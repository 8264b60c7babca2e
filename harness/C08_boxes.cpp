// CONTRACT: axis_aligned_bounding_box: constructors, assignment from tuples, intersects (point, box), contains, expand, to_tuple, operator[], accessors 2D/3D - primitive/axis_aligned_bounding_box.hpp
// CONTRACT: make_aabb (segment, tuple) 2D/3D, aabb_aabb_intersection - primitive/axis_aligned_bounding_box.hpp, algorithm/intersection/aabb_aabb_intersection.hpp
#include "geo.h"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
using AABB2=axis_aligned_bounding_box<P2>; using AABB3=axis_aligned_bounding_box<P3>; typedef absolute_tolerance_comparison_policy<double> ABSC;
struct Q2 { P2 l,u; AABB2 b() const { return AABB2(l,u); } }; struct Q3 { P3 l,u; AABB3 b() const { return AABB3(l,u); } };
static Q2 box2(){ P2 l=rp2("lx","ly"); double w=Rnn("w"),h=Rnn("h"); return Q2{l,P2{l[0]+w,l[1]+h}}; }
static Q3 box3(){ P3 l=rp3("lx","ly","lz"); double w=Rnn("w"),h=Rnn("h"),d=Rnn("d"); return Q3{l,P3{l[0]+w,l[1]+h,l[2]+d}}; }
static B in2(const P2& p,const Q2& q,double e=0){ return le(q.l[0]-e,p[0])&le(p[0],q.u[0]+e)&le(q.l[1]-e,p[1])&le(p[1],q.u[1]+e); }
static B in3(const P3& p,const Q3& q,double e=0){ return le(q.l[0]-e,p[0])&le(p[0],q.u[0]+e)&le(q.l[1]-e,p[1])&le(p[1],q.u[1]+e)&le(q.l[2]-e,p[2])&le(p[2],q.u[2]+e); }
static B is2(const AABB2& a,const P2& l,const P2& u){ return same(a.get_lower_bound(),l)&same(a.get_upper_bound(),u); }
static B is3(const AABB3& a,const P3& l,const P3& u){ return same(a.get_lower_bound(),l)&same(a.get_upper_bound(),u); }
VC_MAIN(points){
  Q2 q=box2(); P2 p=rp2("px","py"); Q3 r=box3(); P3 s=rp3("sx","sy","sz"); double e=Rnn("e");
  ENSURE(iff(in2(p,q),bl(q.b().intersects(p)))&iff(in2(p,q),bl(q.b().intersects(p,dcmp))),"a point meets a box exactly when every coordinate is within its bounds"); ENSURE(iff(in3(s,r),bl(r.b().intersects(s))),"a point meets a box in space");
  ENSURE(iff(in2(p,q,e),bl(q.b().intersects(p,ABSC(e))))&iff(in3(s,r,e),bl(r.b().intersects(s,ABSC(e)))),"a tolerance widens the box by exactly the tolerance"); COVER("end");
}
VC_MAIN(boxes2){
  Q2 a=box2(),b=box2(); double e=Rnn("e"); 
  B m=le(a.l[0],b.u[0])&le(b.l[0],a.u[0])&le(a.l[1],b.u[1])&le(b.l[1],a.u[1]), me=le(a.l[0],b.u[0]+e)&le(b.l[0],a.u[0]+e)&le(a.l[1],b.u[1]+e)&le(b.l[1],a.u[1]+e);
  ENSURE(iff(m,bl(a.b().intersects(b.b())))&iff(m,bl(a.b().intersects(b.b(),dcmp)))&iff(m,bl(aabb_aabb_intersection(a.b(),b.b(),dcmp))),"boxes meet exactly when they share a point"); ENSURE(iff(me,bl(a.b().intersects(b.b(),ABSC(e))))&iff(me,bl(aabb_aabb_intersection(a.b(),b.b(),ABSC(e)))),"boxes within a tolerance meet");
  B c=in2(b.l,a)&in2(b.u,a); ENSURE(iff(c,bl(a.b().contains(b.b())))&iff(c,bl(a.b().contains(b.b(),dcmp))),"a box contains another exactly when every point of it is inside"); ENSURE(iff(in2(b.l,a,e)&in2(b.u,a,e),bl(a.b().contains(b.b(),ABSC(e)))),"containment under a tolerance"); COVER("end");
}
VC_MAIN(boxes3){
  Q3 a=box3(),b=box3(); B m=le(a.l[0],b.u[0])&le(b.l[0],a.u[0])&le(a.l[1],b.u[1])&le(b.l[1],a.u[1])&le(a.l[2],b.u[2])&le(b.l[2],a.u[2]);
  ENSURE(iff(m,bl(a.b().intersects(b.b())))&iff(m,bl(aabb_aabb_intersection(a.b(),b.b(),dcmp))),"boxes in space meet exactly when they share a point"); ENSURE(iff(in3(b.l,a)&in3(b.u,a),bl(a.b().contains(b.b()))),"containment in space"); COVER("end");
}
VC_MAIN(expand2){ Q2 a=box2(),b=box2(); P2 l{mn(a.l[0],b.l[0]),mn(a.l[1],b.l[1])},u{mx(a.u[0],b.u[0]),mx(a.u[1],b.u[1])}; AABB2 x=a.b(); x.expand(b.b()); ENSURE(is2(x,l,u),"expanding gives the smallest box containing both"); AABB2 y=a.b(); y.expand(b.b().to_tuple()); ENSURE(is2(y,l,u),"expanding by a bounds tuple"); COVER("end"); }
VC_MAIN(expand3){ Q3 a=box3(),b=box3(); P3 l{mn(a.l[0],b.l[0]),mn(a.l[1],b.l[1]),mn(a.l[2],b.l[2])},u{mx(a.u[0],b.u[0]),mx(a.u[1],b.u[1]),mx(a.u[2],b.u[2])}; AABB3 x=a.b(); x.expand(b.b()); ENSURE(is3(x,l,u),"expanding in space"); AABB3 y=a.b(); y.expand(b.b().to_tuple()); ENSURE(is3(y,l,u),"expanding by a bounds tuple in space"); COVER("end"); }
VC_MAIN(tuples){
  Q2 a=box2(); Q3 c=box3(); AABB2 x(a.b().to_tuple()); ENSURE(is2(x,a.l,a.u),"bounds tuple round trip"); AABB3 y(c.b().to_tuple()); ENSURE(is3(y,c.l,c.u),"bounds tuple round trip in space"); AABB2 z(P2{0.,0.},P2{0.,0.}); z=a.b().to_tuple(); ENSURE(is2(z,a.l,a.u),"assignment from a bounds tuple"); AABB3 w(P3{0.,0.,0.},P3{0.,0.,0.}); w=c.b().to_tuple(); ENSURE(is3(w,c.l,c.u),"assignment from a bounds tuple in space");
  ENSURE(is2(make_aabb<P2>(a.b().to_tuple()),a.l,a.u)&is3(make_aabb<P3>(c.b().to_tuple()),c.l,c.u),"box made from a bounds tuple"); auto t=a.b().to_tuple(); ENSURE(eq(std::get<e_xmin>(t),a.l[0])&eq(std::get<e_xmax>(t),a.u[0])&eq(std::get<e_ymin>(t),a.l[1])&eq(std::get<e_ymax>(t),a.u[1]),"named bounds"); 
  auto t3=c.b().to_tuple(); ENSURE(eq(std::get<e_xmin>(t3),c.l[0])&eq(std::get<e_xmax>(t3),c.u[0])&eq(std::get<e_ymin>(t3),c.l[1])&eq(std::get<e_ymax>(t3),c.u[1])&eq(std::get<e_zmin>(t3),c.l[2])&eq(std::get<e_zmax>(t3),c.u[2]),"named bounds in space");
  long i=vc_choice("i",0,3); P2 want= i==0?a.l: i==1?P2{a.u[0],a.l[1]}: i==2?a.u: P2{a.l[0],a.u[1]}; ENSURE(same(a.b()[i],want)&bl(a.b().size()==4),"corners run counter-clockwise from the lower bound"); COVER("end");
}
VC_MAIN(segments){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"); P3 c=rp3("cx","cy","cz"),d=rp3("dx","dy","dz");
  ENSURE(is2(make_aabb<P2>(S2{a,b}),P2{mn(a[0],b[0]),mn(a[1],b[1])},P2{mx(a[0],b[0]),mx(a[1],b[1])}),"box of a segment is tight"); ENSURE(is3(make_aabb<P3>(S3{c,d}),P3{mn(c[0],d[0]),mn(c[1],d[1]),mn(c[2],d[2])},P3{mx(c[0],d[0]),mx(c[1],d[1]),mx(c[2],d[2])}),"box of a segment in space is tight"); COVER("end");
}
