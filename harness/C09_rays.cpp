// CONTRACT: ray_segment_intersection (with and without outputs, point and segment forms), ray_line_intersection - algorithm/intersection/ray_segment_intersection.hpp, ray_line_intersection.hpp
// CONTRACT: point_in_triangle (plane), segment_triangle_intersect (predicate forms) - algorithm/point_in_polygon.hpp, algorithm/intersection/segment_triangle_intersection.hpp
#include "geo.h"
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
using L2=line<P2>;
static V2 unit(const char* n){ double k=R(n),f=vc_bool("flip")?-1:1; return V2{f*(1-k*k)/(1+k*k),f*2*k/(1+k*k)}; }
static P2 at(const P2& c,const V2& d,double x,double y){ return P2{c[0]+x*d[0]-y*d[1],c[1]+x*d[1]+y*d[0]}; }
VC_MAIN(ray_segment){ // ends of the segment in the frame of the ray: along and across
  P2 o=rp2("ox","oy"); V2 d=unit("k"); double ax=R("ax"),ay=R("ay"),bx=R("bx"),by=R("by"),t=-7; REQUIRE(!(eq(ax,bx)&eq(ay,by))); REQUIRE(ne(ay,by)); P2 a=at(o,d,ax,ay),b=at(o,d,bx,by),q[2]={P2{0.,0.},P2{0.,0.}};
  FAR(ay,0); FAR(by,0); FAR(ax,0); FAR(bx,0); FAR(ay,by); FAR(ax*by,bx*ay);
  auto r=ray_segment_intersection(o,d,a,b,t,q,dcmp); double x=(ax*by-bx*ay)/(by-ay); // where the line of the segment crosses the axis of the ray
  B hit=le(ay*by,0)&le(0,x); ENSURE(iff(hit&ne(ay,0)&ne(by,0),bl(r==e_crossing)),"crossing exactly when the ray passes through the interior of the segment"); ENSURE(iff(hit&(eq(ay,0)|eq(by,0)),bl(r==e_endpoint)),"endpoint exactly when the ray passes through an end"); ENSURE(iff(!hit,bl(r==e_non_crossing)),"no crossing otherwise");
  if(r!=e_non_crossing){ ENSURE(eq(t,x),"distance along the ray"); ENSURE(same(q[0],at(o,d,x,0)),"point at the distance"); }
  ENSURE(bl(ray_segment_intersection(o,d,a,b,dcmp)==r)&bl(ray_segment_intersection(o,d,S2{a,b},dcmp)==r),"forms without outputs agree"); double t2=-7; P2 q2[2]={P2{0.,0.},P2{0.,0.}}; ENSURE(bl(ray_segment_intersection(o,d,S2{a,b},t2,q2,dcmp)==r),"segment form agrees"); if(r!=e_non_crossing) ENSURE(eq(t2,t)&same(q2[0],q[0]),"segment form gives the same point"); COVER("end");
}
VC_MAIN(ray_segment_parallel){
  P2 o=rp2("ox","oy"); V2 d=unit("k"); double ax=R("ax"),y=R("y"),bx=R("bx"),t=-7; REQUIRE(ne(ax,bx)); P2 a=at(o,d,ax,y),b=at(o,d,bx,y),q[2]={P2{0.,0.},P2{0.,0.}}; FAR(y,0); FAR(ax,0); FAR(bx,0);
  auto r=ray_segment_intersection(o,d,a,b,t,q,dcmp); B hit=eq(y,0)&(le(0,ax)|le(0,bx)); ENSURE(iff(hit,bl(r==e_overlapping))&iff(!hit,bl(r==e_non_crossing)),"a parallel ray overlaps exactly when it runs along the segment"); ENSURE(bl(ray_segment_intersection(o,d,a,b,dcmp)==r),"form without outputs agrees for parallel rays");
  if(r==e_overlapping){ double lo=mx(0,mn(ax,bx)),hi=mx(ax,bx); ENSURE(eq(t,lo),"distance of the first shared point"); ENSURE(same(q[0],at(o,d,lo,0))&same(q[1],at(o,d,hi,0)),"the shared stretch, nearest point first"); } COVER("end");
}
VC_MAIN(ray_line){
  P2 o=rp2("ox","oy"),q{0.,0.}; V2 d=unit("k"),u=unit("m"); double ax=R("ax"),ay=R("ay"),t=-7; P2 a=at(o,d,ax,ay); double ux=d[0]*u[0]-d[1]*u[1],uy=d[0]*u[1]+d[1]*u[0]; // direction of the line turned by u from the ray
  FAR(u[1],0); FAR(ax*u[1],ay*u[0]); FAR(ay,0);
  auto r=ray_line_intersection(o,d,L2(a,V2{ux,uy}),t,q,dcmp); double num=ax*u[1]-ay*u[0]; B par=eq(u[1],0),hit=sel(par,0,1)==1 ? le(0,num*u[1]) : eq(ay,0);
  ENSURE(iff(hit,bl(r.is_intersecting())),"a ray meets a line exactly when some point ahead of it is on the line"); ENSURE(iff(par&hit,bl(r.is_overlapping())),"overlap exactly when the ray runs along the line"); if(r.is_intersecting()&&!r.is_overlapping()){ ENSURE(eq(t*u[1],num),"distance along the ray"); ENSURE(same(q,at(o,d,t,0)),"point at the distance"); } COVER("end");
}
// points in barycentric coordinates of a triangle with corner o and edges e,f
VC_MAIN(in_triangle2){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),p=rp2("px","py"); REQUIRE(gt(area2(a,b,c),0)); B in=le(0,area2(a,b,p))&le(0,area2(b,c,p))&le(0,area2(c,a,p)); ENSURE(iff(in,bl(point_in_triangle(p,a,b,c,dcmp))),"a point is in a counter-clockwise triangle exactly when it is on the left of no edge's right side");
  double s=Runit("s"),t=Runit("t"); REQUIRE(le(s+t,1)); ENSURE(bl(point_in_triangle(P2{a[0]+s*(b[0]-a[0])+t*(c[0]-a[0]),a[1]+s*(b[1]-a[1])+t*(c[1]-a[1])},a,b,c,dcmp)),"every weighted mean of the corners is inside"); COVER("end");
}
VC_MAIN(segment_triangle){
  vc_opt("ite","1"); double os=R("os"),ot=R("ot"); V2 e=rv2("ex","ey"),f=rv2("fx","fy"); P2 o{os*e[0]+ot*f[0],os*e[1]+ot*f[1]}; REQUIRE(ne(cr2(e[0],e[1],f[0],f[1]),0)); double as=R("as"),at_=R("at"),bs=R("bs"),bt=R("bt"),w=Runit("w"); auto pt=[&](double s,double t){ return P2{o[0]+s*e[0]+t*f[0],o[1]+s*e[1]+t*f[1]}; };
  bool got=segment_triangle_intersect(pt(as,at_),pt(bs,bt),pt(0,0),pt(1,0),pt(0,1)); bool got2=segment_triangle_intersect(S2{pt(as,at_),pt(bs,bt)},pt(0,0),pt(1,0),pt(0,1));
  double c0=cr2(-as,-at_,bs-as,bt-at_),c1=cr2(1-as,-at_,bs-as,bt-at_),c2=cr2(-as,1-at_,bs-as,bt-at_); // side of the corners with respect to the line of the segment
  FAR(c0,0); FAR(c1,0); FAR(c2,0); FAR(as,0); FAR(bs,0); FAR(at_,0); FAR(bt,0); FAR(as+at_,1); FAR(bs+bt,1);
  B sep=(lt(0,c0)&lt(0,c1)&lt(0,c2))|(lt(c0,0)&lt(c1,0)&lt(c2,0))|lt(mx(as,bs),0)|lt(mx(at_,bt),0)|lt(1,mn(as+at_,bs+bt));
  ENSURE(imp(bl(!got),sep),"a miss has a separating axis"); ENSURE(imp(bl(got),!(sep)),"a report has none"); ENSURE(bl(got==got2),"segment form agrees"); COVER("end");
}
VC_MAIN(segment_triangle_lemma){ // in weights: no separating axis exactly when an end is inside or the segment crosses an edge; a common point excludes separation
  double as=R("as"),at_=R("at"),bs=R("bs"),bt=R("bt"),w=Runit("w"),s=as+w*(bs-as),t=at_+w*(bt-at_); REQUIRE(le(0,s)&le(0,t)&le(s+t,1)); double c0=cr2(-as,-at_,bs-as,bt-at_),c1=cr2(1-as,-at_,bs-as,bt-at_),c2=cr2(-as,1-at_,bs-as,bt-at_);
  B sep=(lt(0,c0)&lt(0,c1)&lt(0,c2))|(lt(c0,0)&lt(c1,0)&lt(c2,0))|lt(mx(as,bs),0)|lt(mx(at_,bt),0)|lt(1,mn(as+at_,bs+bt)); ENSURE(!sep,"figures with a common point are not separated"); COVER("end");
}
VC_MAIN(segment_triangle_lemma2){ // figures not separated have a common point: an end or a crossing with one of the edge lines
  double as=R("as"),at_=R("at"),bs=R("bs"),bt=R("bt"),ds=bs-as,dt=bt-at_; double c0=cr2(-as,-at_,ds,dt),c1=cr2(1-as,-at_,ds,dt),c2=cr2(-as,1-at_,ds,dt); auto in=[&](double w){ double s=as+w*ds,t=at_+w*dt; return le(0,w)&le(w,1)&le(0,s)&le(0,t)&le(s+t,1); };
  B sep=(lt(0,c0)&lt(0,c1)&lt(0,c2))|(lt(c0,0)&lt(c1,0)&lt(c2,0))|lt(mx(as,bs),0)|lt(mx(at_,bt),0)|lt(1,mn(as+at_,bs+bt)); REQUIRE(!sep); B any=in(0)|in(1); if(ds!=0) any|=in(-as/ds); if(dt!=0) any|=in(-at_/dt); if(ds+dt!=0) any|=in((1-as-at_)/(ds+dt)); ENSURE(any,"figures which are not separated have a common point"); COVER("end");
}
