// CONTRACT: ray_sphere_intersection, segment_sphere_intersection (interval, directed, point and segment overloads) - algorithm/intersection/ray_sphere_intersection.hpp, algorithm/intersection/segment_sphere_intersection.hpp
// CONTRACT: sphere_sphere_intersection, circle_circle_intersection (plane) - algorithm/intersection/sphere_sphere_intersection.hpp, algorithm/intersection/circle_circle_intersection.hpp
// CONTRACT: sphere_aabb_intersection, sphere_obb_intersection, segment_plane_intersection, obb_obb_intersection - algorithm/intersection/
#include "geo.h"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
using SPH=sphere<2,P2>; using SPH3=sphere<3,P3>; using OBB=oriented_bounding_box<P2,V2>; using AABB2=axis_aligned_bounding_box<P2>;
static V2 unit(const char* n){ double k=R(n),f=vc_bool("flip")?-1:1; return V2{f*(1-k*k)/(1+k*k),f*2*k/(1+k*k)}; }
// position given by centre c, along d by x and across by y
static P2 at(const P2& c,const V2& d,double x,double y){ return P2{c[0]+x*d[0]-y*d[1],c[1]+x*d[1]+y*d[0]}; }
VC_MAIN(ray_sphere){
  P2 c=rp2("cx","cy"); V2 d=unit("k"); double x=R("x"),y=R("y"),r=Rnn("r"); P2 p=at(c,d,x,y),q{0.,0.}; double t=-7; FAR(x,0); FAR(y*y,r*r); FAR(x*x+y*y,r*r);
  bool got=ray_sphere_intersection(p,d,SPH(c,r),t,q,dcmp); double g=x*x+y*y-r*r;
  B inside=le(g,0),hit=inside|(le(x,0)&le(y*y,r*r)); ENSURE(iff(hit,bl(got)),"a ray hits a sphere exactly when some point ahead of its origin is inside");
  if(got){ ENSURE(imp(inside,eq(t,0)),"a ray from inside hits at once"); ENSURE(imp(!inside,le(0,t)&le(x+t,0)&eq(sq(x+t)+y*y,r*r)),"a ray hits at the first boundary point"); ENSURE(same(q,at(c,d,x+t,y)),"hit point lies on the ray at its parameter"); }
  COVER("end");
}
VC_MAIN(segment_sphere){
  P2 c=rp2("cx","cy"); V2 d=unit("k"); double x=R("x"),y=R("y"),r=Rnn("r"),L=Rnn("L"); P2 p=at(c,d,x,y),e=at(c,d,x+L,y),q{0.,0.}; double t=-7; FAR(x,0); FAR(y*y,r*r); FAR(x*x+y*y,r*r); FAR(sq(x+L)+y*y,r*r); FAR(L,0);
  bool got=segment_sphere_intersection(p,e,SPH(c,r),t,q,dcmp); double g=x*x+y*y-r*r; 
  B inside=le(g,0),hit=inside|(le(x,0)&le(y*y,r*r)&(le(0,x+L)|le(sq(x+L)+y*y,r*r))); ENSURE(iff(hit,bl(got)),"a segment hits a sphere exactly when one of its points is inside");
  if(got){ ENSURE(le(0,t)&le(t,1),"parameter on the segment"); ENSURE(imp(inside,eq(t,0)),"a segment from inside hits at once"); ENSURE(imp(!inside,le(x+t*L,0)&eq(sq(x+t*L)+y*y,r*r)),"a segment hits at the first boundary point"); ENSURE(imp(lt(0,L),same(q,at(c,d,x+t*L,y))),"hit point lies on the segment at its parameter"); }
  double t2=-7; P2 q2{0.,0.}; bool g2=segment_sphere_intersection(S2{p,e},SPH(c,r),t2,q2,dcmp); ENSURE(bl(g2==got),"segment and point forms agree"); if(got&&g2) ENSURE(eq(t2,t),"segment and point forms agree on the parameter");
  double t3=-7; P2 q3{0.,0.}; bool g3=segment_sphere_intersection(p,V2{L*d[0],L*d[1]},L,SPH(c,r),t3,q3,dcmp); ENSURE(bl(g3==got),"directed and point forms agree"); if(got&&g3) ENSURE(eq(t3,t),"directed and point forms agree on the parameter");
  COVER("end");
}
VC_MAIN(segment_sphere_both){
  P2 c=rp2("cx","cy"); V2 d=unit("k"); double x=R("x"),y=R("y"),r=Rnn("r"),L=Rpos("L"); P2 p=at(c,d,x,y),e=at(c,d,x+L,y),q[2]={P2{0.,0.},P2{0.,0.}}; double t[2]={-7,-7}; FAR(y*y,r*r); FAR(x*x+y*y,r*r); FAR(sq(x+L)+y*y,r*r);
  auto got=segment_sphere_intersection(p,e,SPH(c,r),t,q,dcmp); B line=le(y*y,r*r);
  ENSURE(imp(!line,bl(!got.is_t0_intersecting())&bl(!got.is_t1_intersecting())),"a segment whose line misses the sphere has no crossing");
  if(y*y<=r*r){ ENSURE(le(t[0],t[1])&eq(sq(x+t[0]*L)+y*y,r*r)&eq(sq(x+t[1]*L)+y*y,r*r)&eq(2*x+(t[0]+t[1])*L,0),"both crossings of the line with the boundary, in order"); for(int i=0;i<2;++i) ENSURE(same(q[i],at(c,d,x+t[i]*L,y)),"crossing points lie at their parameters");
    ENSURE(iff(bl(got.is_t0_intersecting()),le(0,t[0])&le(t[0],1))&iff(bl(got.is_t1_intersecting()),le(0,t[1])&le(t[1],1)),"a crossing counts exactly when it is on the segment"); }
  ENSURE(bl((std::uint32_t)got==(got.is_t0_intersecting()?1u:0u)+(got.is_t1_intersecting()?1u:0u))&bl((bool)got==(got.is_t0_intersecting()||got.is_t1_intersecting())),"number of crossings"); COVER("end");
}
template<typename F,typename E> static void two(F f,E en){
  P2 c=rp2("cx","cy"); V2 d=unit("k"); double D=Rnn("D"),r=Rnn("r"),s=Rnn("s"); P2 e=at(c,d,D,0); FAR(D,r+s); FAR(D,ab(r-s)); FAR(D,0);
  auto g=f(SPH(c,r),SPH(e,s)); B apart=lt(r+s,D),nested=lt(D,ab(r-s)),same_=eq(D,0)&eq(r,s);
  ENSURE(iff(apart,bl(g.State==en.non_intersecting)),"disjoint exactly when the centres are farther apart than the radii reach"); ENSURE(iff(nested,bl(g.State==en.circumscribed)),"nested exactly when one lies strictly inside the other"); ENSURE(iff(same_,bl(g.State==en.coincident)),"coincident exactly when equal");
  B touch=!apart&!nested&!same_; B tangent=touch&(eq(D,r+s)|eq(D,ab(r-s))); ENSURE(iff(tangent,bl(g.State==en.one)),"one point exactly when tangent"); ENSURE(iff(touch&!tangent,bl(g.State==en.two)),"two points exactly when properly crossing");
  if(g.State==en.one||g.State==en.two){ P2 a=*g.IntersectionPoint0; ENSURE(eq(dist2(a,c),r*r)&eq(dist2(a,e),s*s),"the first point is on both"); }
  if(g.State==en.two){ P2 a=*g.IntersectionPoint0,b=*g.IntersectionPoint1; ENSURE(eq(dist2(b,c),r*r)&eq(dist2(b,e),s*s),"the second point is on both"); ENSURE(!same(a,b),"the two points differ"); }
  COVER("end");
}
struct ES { sphere_intersection_state non_intersecting=sphere_intersection_state::non_intersecting,circumscribed=sphere_intersection_state::circumscribed,one=sphere_intersection_state::one_intersection,two=sphere_intersection_state::two_intersections,coincident=sphere_intersection_state::coincident; };
struct EC { circle_intersection_state non_intersecting=circle_intersection_state::non_intersecting,circumscribed=circle_intersection_state::circumscribed,one=circle_intersection_state::one_intersection,two=circle_intersection_state::two_intersections,coincident=circle_intersection_state::coincident; };
VC_MAIN(sphere_sphere){ two([](const SPH& a,const SPH& b){ return sphere_sphere_intersection(a,b,dcmp); },ES()); }
VC_MAIN(circle_circle){ two([](const SPH& a,const SPH& b){ return circle_circle_intersection(a,b,dcmp); },EC()); }
static double exc(double x,double h){ return x<-h?x+h:x>h?x-h:0; }
VC_MAIN(sphere_aabb){
  P2 l=rp2("lx","ly"),c=rp2("cx","cy"),q{0.,0.}; double w=Rnn("w"),h=Rnn("h"),r=Rnn("r"); AABB2 b(P2{l[0]-w,l[1]-h},P2{l[0]+w,l[1]+h}); double g=sq(exc(c[0]-l[0],w))+sq(exc(c[1]-l[1],h));
  ENSURE(iff(le(g,r*r),bl(sphere_aabb_intersection(SPH(c,r),b))),"a sphere meets a box exactly when its centre is within the radius of it"); ENSURE(iff(le(g,r*r),bl(sphere_aabb_intersection(SPH(c,r),b,q))),"the form with a point agrees"); ENSURE(eq(dist2(q,c),g)&le(ab(q[0]-l[0]),w)&le(ab(q[1]-l[1]),h),"reported point is the closest point of the box"); COVER("end");
}
VC_MAIN(sphere_obb){
  P2 o=rp2("ox","oy"); V2 d=unit("k"); double a=Rnn("a"),b=Rnn("b"),x=R("x"),y=R("y"),r=Rnn("r"); double g=sq(exc(x,a))+sq(exc(y,b)); FAR(g,r*r);
  ENSURE(iff(le(g,r*r),bl(sphere_obb_intersection(SPH(at(o,d,x,y),r),OBB(o,d,V2{-d[1],d[0]},a,b)))),"a sphere meets an oriented box exactly when its centre is within the radius of it"); COVER("end");
}
