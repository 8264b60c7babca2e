// CONTRACT: ray_aabb_intersection (both overloads), segment_aabb_intersection 2D/3D, obb_obb_intersection - algorithm/intersection/ray_aabb_intersection.hpp, segment_aabb_intersection.hpp, obb_obb_intersection.hpp
// CONTRACT: segment_plane_intersection, plane constructors and accessors - algorithm/intersection/segment_plane_intersection.hpp, primitive/plane.hpp
#include "geo.h"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
using OBB=oriented_bounding_box<P2,V2>; using AABB2=axis_aligned_bounding_box<P2>; using AABB3=axis_aligned_bounding_box<P3>;
static B inb(double x,double y,const P2& l,double w,double h){ return le(l[0],x)&le(x,l[0]+w)&le(l[1],y)&le(y,l[1]+h); }
VC_MAIN(ray_aabb){
  P2 l=rp2("lx","ly"),p=rp2("px","py"),q{0.,0.},q0{0.,0.},q1{0.,0.}; double w=Rnn("w"),h=Rnn("h"),dx=R("dx"),dy=R("dy"),s=Rnn("s"),t=-7,t0=-7,t1=-7; REQUIRE(!(eq(dx,0)&eq(dy,0))); AABB2 b(l,P2{l[0]+w,l[1]+h}); V2 d{dx,dy};
  FAR(dx,0); FAR(dy,0);
  auto r=ray_aabb_intersection(p,d,b,t,q,dcmp); auto r2=ray_aabb_intersection(p,d,b,t0,q0,t1,q1,dcmp); B sin=inb(p[0]+s*dx,p[1]+s*dy,l,w,h),pin=inb(p[0],p[1],l,w,h);
  ENSURE(imp(sin,bl(r.is_intersecting()))&imp(sin,bl(r2.is_intersecting())),"a ray with a point in the box is reported"); ENSURE(bl(r.is_intersecting()==r2.is_intersecting()),"both forms agree");
  if(r.is_intersecting()){ ENSURE(le(0,t)&imp(sin,le(t,s)),"entrance parameter is the first one in the box"); ENSURE(inb(p[0]+t*dx,p[1]+t*dy,l,w,h),"the ray is in the box at the entrance parameter"); ENSURE(iff(pin,bl(r.is_origin_inside())),"origin inside flag");
    ENSURE(imp(!pin,same(q,P2{p[0]+t*dx,p[1]+t*dy})),"entrance point"); ENSURE(inb(q[0],q[1],l,w,h)&eq((q[0]-p[0])*dy,(q[1]-p[1])*dx),"reported point is on the ray and the box"); ENSURE(imp(pin&sin,le(s*(dx*dx+dy*dy),(q[0]-p[0])*dx+(q[1]-p[1])*dy)),"from inside, the reported point is the exit"); }
  if(r2.is_intersecting()){ ENSURE(le(0,t0)&imp(sin,le(t0,s)&le(s,t1)),"entrance and exit bracket the part in the box"); ENSURE(same(q0,P2{p[0]+t0*dx,p[1]+t0*dy})&same(q1,P2{p[0]+t1*dx,p[1]+t1*dy}),"entrance and exit points are at their parameters"); ENSURE(inb(q0[0],q0[1],l,w,h)&inb(q1[0],q1[1],l,w,h),"entrance and exit points are on the box"); ENSURE(iff(pin,bl(r2.is_origin_inside())),"origin inside flag of the two point form"); }
  COVER("end");
}
static const double EPS=std::numeric_limits<double>::epsilon();
VC_MAIN(segment_aabb2){
  P2 l=rp2("lx","ly"),p=rp2("px","py"); double w=Rnn("w"),h=Rnn("h"),dx=R("dx"),dy=R("dy"),s=Runit("s"); bool got=segment_aabb_intersection(p,P2{p[0]+dx,p[1]+dy},AABB2(l,P2{l[0]+w,l[1]+h}));
  ENSURE(imp(inb(p[0]+s*dx,p[1]+s*dy,l,w,h),bl(got)),"a segment with a point in the box is reported");
  double c[4],m=EPS*(w+h)/2; for(int i=0;i<4;++i) c[i]=cr2(l[0]+(i&1)*w-p[0],l[1]+(i>>1)*h-p[1],dx,dy);
  B out=lt(mx(p[0],p[0]+dx),l[0])|lt(l[0]+w,mn(p[0],p[0]+dx))|lt(mx(p[1],p[1]+dy),l[1])|lt(l[1]+h,mn(p[1],p[1]+dy))|(lt(m,c[0])&lt(m,c[1])&lt(m,c[2])&lt(m,c[3]))|(lt(c[0],-m)&lt(c[1],-m)&lt(c[2],-m)&lt(c[3],-m));
  ENSURE(imp(out,bl(!got)),"a segment separated from the box by more than the rounding slack is not reported"); ENSURE(imp(bl(!got),out),"a miss has a separating axis"); COVER("end");
}
VC_MAIN(segment_aabb2_lemma){ // no separating axis means a common point: one of the ends or of the crossings with the four sides
  double w=Rnn("w"),h=Rnn("h"),x=R("px"),y=R("py"),dx=R("dx"),dy=R("dy"); auto in=[&](double t){ return le(0,t)&le(t,1)&le(-w,x+t*dx)&le(x+t*dx,w)&le(-h,y+t*dy)&le(y+t*dy,h); };
  double k=cr2(x,y,dx,dy); REQUIRE(le(-w,mx(x,x+dx))&le(mn(x,x+dx),w)&le(-h,mx(y,y+dy))&le(mn(y,y+dy),h)&le(ab(k),w*ab(dy)+h*ab(dx))); 
  B any=in(0)|in(1); if(dx!=0) any|=in((w-x)/dx)|in((-w-x)/dx); if(dy!=0) any|=in((h-y)/dy)|in((-h-y)/dy); ENSURE(any,"segments not separated from the box share a point with it"); COVER("end");
}
VC_MAIN(segment_aabb3){
  P3 l=rp3("lx","ly","lz"),p=rp3("px","py","pz"); double w=Rnn("w"),h=Rnn("h"),z=Rnn("z"),dx=R("dx"),dy=R("dy"),dz=R("dz"),s=Runit("s"); bool got=segment_aabb_intersection(p,P3{p[0]+dx,p[1]+dy,p[2]+dz},AABB3(l,P3{l[0]+w,l[1]+h,l[2]+z}));
  double ux=2*p[0]+dx-2*l[0]-w,uy=2*p[1]+dy-2*l[1]-h,uz=2*p[2]+dz-2*l[2]-z,ax=ab(dx),ay=ab(dy),az=ab(dz);
  B sep=lt(w+ax,ab(ux))|lt(h+ay,ab(uy))|lt(z+az,ab(uz))|lt(h*(az+EPS)+z*(ay+EPS),ab(uy*dz-uz*dy))|lt(w*(az+EPS)+z*(ax+EPS),ab(uz*dx-ux*dz))|lt(w*(ay+EPS)+h*(ax+EPS),ab(ux*dy-uy*dx));
  ENSURE(iff(!sep,bl(got)),"a segment in space meets a box exactly when no axis separates them by more than the rounding slack"); COVER("end");
}
VC_MAIN(segment_aabb3_never_misses){
  double w=Rnn("w"),h=Rnn("h"),z=Rnn("z"),bx=R("bx"),by=R("by"),bz=R("bz"),s=Runit("s"); double dx=R("dx"),dy=R("dy"),dz=R("dz"); REQUIRE(le(ab(bx),w)&le(ab(by),h)&le(ab(bz),z)); P3 p{bx-s*dx,by-s*dy,bz-s*dz},q{bx+(1-s)*dx,by+(1-s)*dy,bz+(1-s)*dz};
  ENSURE(bl(segment_aabb_intersection(p,q,AABB3(P3{-w,-h,-z},P3{w,h,z}))),"a segment in space with a point in the box is reported"); COVER("end");
}
VC_MAIN(obb_obb_frames){ // both boxes turned: the answer only depends on their relative position
  double k=R("k"),f=vc_bool("flip")?-1:1,c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k),k2=R("k2"),f2=vc_bool("flip2")?-1:1,c2=f2*(1-k2*k2)/(1+k2*k2),s2=f2*2*k2/(1+k2*k2),x=R("x"),y=R("y"),a=Rnn("a"),b=Rnn("b"),u=Rnn("u"),v=Rnn("v"); P2 o=rp2("ox","oy");
  double cc=c*c2-s*s2,ss=s*c2+c*s2; bool got=obb_obb_intersection(OBB(o,V2{c2,s2},V2{-s2,c2},a,b),OBB(P2{o[0]+x*c2-y*s2,o[1]+x*s2+y*c2},V2{cc,ss},V2{-ss,cc},u,v),dcmp); 
  double ex=u*ab(c)+v*ab(s),ey=u*ab(s)+v*ab(c),fx=a*ab(c)+b*ab(s),fy=a*ab(s)+b*ab(c); B sep=lt(a+ex,ab(x))|lt(b+ey,ab(y))|lt(u+fx,ab(x*c+y*s))|lt(v+fy,ab(-x*s+y*c));
  FAR(a+ex,ab(x)); FAR(b+ey,ab(y)); FAR(u+fx,ab(x*c+y*s)); FAR(v+fy,ab(-x*s+y*c));
  ENSURE(iff(!sep,bl(got)),"oriented boxes in general position"); COVER("end");
}
VC_MAIN(obb_obb_common_point){
  double k=R("k"),f=vc_bool("flip")?-1:1,c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k),a=Rnn("a"),b=Rnn("b"),u=Rnn("u"),v=Rnn("v"),p=R("p"),q=R("q"),g=R("g"),h=R("h"); REQUIRE(le(ab(p),a)&le(ab(q),b)&le(ab(g),u)&le(ab(h),v)); FAR(ab(p),a); FAR(ab(q),b); FAR(ab(g),u); FAR(ab(h),v);
  ENSURE(bl(obb_obb_intersection(OBB(P2{0.,0.},V2{1.,0.},V2{0.,1.},a,b),OBB(P2{p-g*c+h*s,q-g*s-h*c},V2{c,s},V2{-s,c},u,v),dcmp)),"oriented boxes with a common point are reported"); COVER("end");
}
struct ghost_plane { V3 n; double d; };
namespace geometrix { template<> struct hyperplane_access_traits<ghost_plane>{ static double get_distance_to_origin(const ghost_plane& p){ return p.d; } static V3 get_normal_vector(const ghost_plane& p){ return p.n; } }; }
VC_MAIN(segment_plane){
  P3 a=rp3("ax","ay","az"),b=rp3("bx","by","bz"),q{0.,0.,0.}; V3 n=rv3("nx","ny","nz"); double d=R("d"),t=-7,s=Runit("s"); double fa=n[0]*a[0]+n[1]*a[1]+n[2]*a[2]-d,fb=n[0]*b[0]+n[1]*b[1]+n[2]*b[2]-d; REQUIRE(ne(fa,fb)); FAR(fa,0); FAR(fb,0);
  bool got=segment_plane_intersection(a,b,ghost_plane{n,d},t,q); ENSURE(iff(le(fa*fb,0),bl(got)),"a segment meets a plane exactly when its ends are not strictly on one side"); ENSURE(eq(fa+t*(fb-fa),0),"parameter solves the plane equation");
  if(got) ENSURE(same(q,P3{a[0]+t*(b[0]-a[0]),a[1]+t*(b[1]-a[1]),a[2]+t*(b[2]-a[2])}),"point at the parameter"); COVER("end");
}
