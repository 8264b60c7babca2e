// CONTRACT: geometrix::point_point_distance(_sqrd) 2D/3D - algorithm/distance/point_point_distance.hpp
// CONTRACT: geometrix::point_segment_distance(_sqrd) (segment and point overloads, 2D/3D) - algorithm/distance/point_segment_distance.hpp
// CONTRACT: geometrix::point_segment_closest_point(_and_param) (all overloads, 2D/3D) - algorithm/distance/point_segment_closest_point.hpp
// CONTRACT: geometrix::segment_segment_closest_point, segment_segment_distance(_sqrd) (all overloads) - algorithm/distance/segment_segment_closest_point.hpp, segment_segment_distance.hpp
// CONTRACT: geometrix::segment_obb_distance(_sqrd) - algorithm/distance/segment_obb_distance.hpp
#include "geo.h"
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
VC_MAIN(pp_distance){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"); P3 c=rp3("cx","cy","cz"),d=rp3("dx","dy","dz");
  ENSURE(eq(point_point_distance_sqrd(a,b),dist2(a,b)),"squared distance of two plane points");
  ENSURE(eq(point_point_distance_sqrd(c,d),dist2(c,d)),"squared distance of two space points");
  double r=point_point_distance(a,b),q=point_point_distance(c,d);
  ENSURE(le(0,r)&eq(r*r,dist2(a,b)),"distance of two plane points is the non-negative root"); ENSURE(le(0,q)&eq(q*q,dist2(c,d)),"distance of two space points is the non-negative root");
  P2 o=rp2("ox","oy"); distance_compare<P2,direct_comparison_policy> dc(o,dcmp);
  ENSURE(iff(lt(dist2(o,a),dist2(o,b)),bl(dc(a,b))),"distance ordering compares true distances to the fixed point"); COVER("end");
}
// p = A + x*u + y*perp(u) is every point of the plane when u != 0
VC_MAIN(ps_distance2){
  double ax=R("ax"),ay=R("ay"),ux=R("ux"),uy=R("uy"),x=R("x"),y=R("y"); REQUIRE(ne(ux,0)|ne(uy,0));
  P2 a{ax,ay},b{ax+ux,ay+uy},p{ax+x*ux-y*uy,ay+x*uy+y*ux}; S2 s{a,b}; double uu=ux*ux+uy*uy;
  double o= x<0?x:x>1?x-1:0, want=(o*o+y*y)*uu;
  double c= x<0?0:x>1?1:x; P2 wc{ax+c*ux,ay+c*uy};
  ENSURE(eq(point_segment_distance_sqrd(p,a,b),want),"squared point-segment distance is the minimum"); 
  ENSURE(eq(point_segment_distance_sqrd(p,s),want),"segment overload of the squared distance");
  double d=point_segment_distance(p,s); ENSURE(le(0,d)&eq(d*d,want),"point-segment distance is the root of the minimum");
  ENSURE(same(point_segment_closest_point(p,s),wc),"closest point on a segment is the clamped projection");
  ENSURE(same(point_segment_closest_point(p,a,b),wc),"closest point (two point overload)");
  double t=9; ENSURE(same(point_segment_closest_point_and_param(p,a,b,t),wc),"closest point with parameter"); ENSURE(eq(t,x),"parameter is the projection parameter");
  COVER("end");
}
// p = A + x*u + u x q is every point of space when u != 0
VC_MAIN(ps_distance3){
  double ax=R("ax"),ay=R("ay"),az=R("az"),ux=R("ux"),uy=R("uy"),uz=R("uz"),x=R("x"),qx=R("qx"),qy=R("qy"),qz=R("qz"); REQUIRE(ne(ux,0)|ne(uy,0)|ne(uz,0));
  double wx=uy*qz-uz*qy,wy=uz*qx-ux*qz,wz=ux*qy-uy*qx,uu=ux*ux+uy*uy+uz*uz;
  P3 a{ax,ay,az},b{ax+ux,ay+uy,az+uz},p{ax+x*ux+wx,ay+x*uy+wy,az+x*uz+wz}; S3 s{a,b};
  double o= x<0?x:x>1?x-1:0, want=o*o*uu+wx*wx+wy*wy+wz*wz, c= x<0?0:x>1?1:x; P3 wc{ax+c*ux,ay+c*uy,az+c*uz};
  ENSURE(eq(point_segment_distance_sqrd(p,a,b),want),"squared point-segment distance in space"); ENSURE(eq(point_segment_distance_sqrd(p,s),want),"squared point-segment distance in space (segment)");
  ENSURE(same(point_segment_closest_point(p,s),wc)&same(point_segment_closest_point(p,a,b),wc),"closest point on a segment in space"); 
  double d=point_segment_distance(p,s); ENSURE(le(0,d)&eq(d*d,want),"point-segment distance in space"); COVER("end");
}
// degenerate (point) segments
VC_MAIN(ps_degenerate){
  P2 a=rp2("ax","ay"),p=rp2("px","py"); S2 s{a,a};
  ENSURE(eq(point_segment_distance_sqrd(p,a,a),dist2(p,a)),"distance to a zero length segment"); ENSURE(same(point_segment_closest_point(p,s),a),"closest point on a zero length segment"); COVER("end");
}
// ---- segment / segment: first order optimality of the returned pair (sufficient: lemma ss_lemma)
struct SS { P2 p1,q1,p2,q2,c1,c2; double s,t,d; };
static void optimal(const SS& k,B nd){
  double ex=k.c1[0]-k.c2[0],ey=k.c1[1]-k.c2[1];
  ENSURE(le(0,k.s)&le(k.s,1)&le(0,k.t)&le(k.t,1),"parameters lie in [0,1]");
  ENSURE(eq(k.c1[0],k.p1[0]+k.s*(k.q1[0]-k.p1[0]))&eq(k.c1[1],k.p1[1]+k.s*(k.q1[1]-k.p1[1])),"first closest point is at its parameter");
  ENSURE(eq(k.c2[0],k.p2[0]+k.t*(k.q2[0]-k.p2[0]))&eq(k.c2[1],k.p2[1]+k.t*(k.q2[1]-k.p2[1])),"second closest point is at its parameter");
  ENSURE(eq(k.d,ex*ex+ey*ey),"returned value is the squared distance of the returned pair");
  ENSURE(le(0,ex*(k.p1[0]-k.c1[0])+ey*(k.p1[1]-k.c1[1])),"no closer point towards the start of the first segment");
  ENSURE(le(0,ex*(k.q1[0]-k.c1[0])+ey*(k.q1[1]-k.c1[1])),"no closer point towards the end of the first segment");
  ENSURE(le(0,-ex*(k.p2[0]-k.c2[0])-ey*(k.p2[1]-k.c2[1])),"no closer point towards the start of the second segment");
  ENSURE(le(0,-ex*(k.q2[0]-k.c2[0])-ey*(k.q2[1]-k.c2[1])),"no closer point towards the end of the second segment");
}
VC_MAIN(ss_closest){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s0=R("s0"),t0=R("t0");
  REQUIRE(ne(ux*vy-uy*vx,0)); // any two non parallel segments: lines meet at (X,Y)
  SS k{P2{X-s0*ux,Y-s0*uy},P2{X+(1-s0)*ux,Y+(1-s0)*uy},P2{X-t0*vx,Y-t0*vy},P2{X+(1-t0)*vx,Y+(1-t0)*vy},P2{0.,0.},P2{0.,0.},9,9,9};
  k.d=segment_segment_closest_point(k.p1,k.q1,k.p2,k.q2,k.s,k.t,k.c1,k.c2,dcmp); optimal(k,true); COVER("end");
}
VC_MAIN(ss_closest_parallel){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),s=R("s"),w=R("w"),m=R("m"); REQUIRE(ne(ux,0)|ne(uy,0)); REQUIRE(ne(m,0));
  P2 c{X+s*ux-w*uy,Y+s*uy+w*ux};
  SS k{P2{X,Y},P2{X+ux,Y+uy},c,P2{c[0]+m*ux,c[1]+m*uy},P2{0.,0.},P2{0.,0.},9,9,9};
  k.d=segment_segment_closest_point(k.p1,k.q1,k.p2,k.q2,k.s,k.t,k.c1,k.c2,dcmp); optimal(k,true); COVER("end");
}
VC_MAIN(ss_closest_degenerate){
  P2 a=rp2("ax","ay"),c=rp2("cx","cy"); double ux=R("ux"),uy=R("uy"); long w=vc_choice("which",0,2);
  SS k{a,a,c,c,P2{0.,0.},P2{0.,0.},9,9,9};
  if(w==1){ k.q1=P2{a[0]+ux,a[1]+uy}; REQUIRE(ne(ux,0)|ne(uy,0)); } if(w==2){ k.q2=P2{c[0]+ux,c[1]+uy}; REQUIRE(ne(ux,0)|ne(uy,0)); }
  k.d=segment_segment_closest_point(k.p1,k.q1,k.p2,k.q2,k.s,k.t,k.c1,k.c2,dcmp); optimal(k,false); COVER("end");
}
// lemma: those inequalities make (c1,c2) a closest pair: for x on S1, y on S2, |x-y|^2 >= |c1-c2|^2
VC_MAIN(ss_lemma){
  double ex=R("ex"),ey=R("ey"),gx=R("gx"),gy=R("gy"); // e=c1-c2, x-y = e+g
  double a=R("a"),b=R("b"),c=R("c"),d=R("d"),l=Runit("l"),m=Runit("m"); // e.(p1-c1)=a, e.(q1-c1)=b, -e.(p2-c2)=c, -e.(q2-c2)=d
  REQUIRE(le(0,a)&le(0,b)&le(0,c)&le(0,d)); REQUIRE(eq(ex*gx+ey*gy,(1-l)*a+l*b+(1-m)*c+m*d));
  double e2=ex*ex+ey*ey,eg=ex*gx+ey*gy,g2=gx*gx+gy*gy;
  ENSURE(le(0,eg),"step 1"); ENSURE(le(e2,e2+2*eg+g2),"step 2"); ENSURE(eq(sq(ex+gx)+sq(ey+gy),e2+2*eg+g2),"optimality lemma"); COVER("end");
}
VC_MAIN(ss_overloads){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s0=R("s0"),t0=R("t0"); REQUIRE(ne(ux*vy-uy*vx,0));
  P2 p1{X-s0*ux,Y-s0*uy},q1{X+(1-s0)*ux,Y+(1-s0)*uy},p2{X-t0*vx,Y-t0*vy},q2{X+(1-t0)*vx,Y+(1-t0)*vy},c1{0.,0.},c2{0.,0.}; double s,t;
  double d=segment_segment_closest_point(p1,q1,p2,q2,s,t,c1,c2,dcmp); S2 a{p1,q1},b{p2,q2};
  ENSURE(eq(segment_segment_distance_sqrd(a,b,dcmp),d),"squared segment distance (segments)"); ENSURE(eq(segment_segment_distance_sqrd(p1,q1,p2,q2,dcmp),d),"squared segment distance (points)");
  double r=segment_segment_distance(a,b,dcmp),q=segment_segment_distance(p1,q1,p2,q2,dcmp);
  ENSURE(le(0,r)&eq(r*r,d),"segment distance (segments)"); ENSURE(le(0,q)&eq(q*q,d),"segment distance (points)"); COVER("end");
}
