// CONTRACT: geometrix::segment_segment_intersection (points and segment overloads, 2D and 3D) - algorithm/intersection/segment_segment_intersection.hpp
// CONTRACT: geometrix::line_line_intersect (both overloads), geometrix::line_segment_intersect (both overloads) - algorithm/line_intersection.hpp
// CONTRACT: geometrix::is_collinear, geometrix::is_between (as used by the parallel case) - utility/utilities.hpp
#include "geo.h"
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
// ---- 2D. Every pair of segments with a common point X is X-s*u..X+(1-s)*u, X-t*v..X+(1-t)*v with s,t in [0,1].
struct Common2 { P2 a,b,c,d,x; double s,t,cr,uu,vv; };
static Common2 common2(){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s=Runit("s"),t=Runit("t");
  REQUIRE(ne(ux,0)|ne(uy,0)); REQUIRE(ne(vx,0)|ne(vy,0));
  return Common2{P2{X-s*ux,Y-s*uy},P2{X+(1-s)*ux,Y+(1-s)*uy},P2{X-t*vx,Y-t*vy},P2{X+(1-t)*vx,Y+(1-t)*vy},P2{X,Y},s,t,cr2(ux,uy,vx,vy),ux*ux+uy*uy,vx*vx+vy*vy};
}
VC_MAIN(seg2_complete){
  Common2 k=common2(); P2 x[2]={P2{0.,0.},P2{0.,0.}};
  auto r=segment_segment_intersection(k.a,k.b,k.c,k.d,x,dcmp);
  ENSURE(bl(r==e_crossing||r==e_endpoint||r==e_overlapping),"segments sharing a point are reported");
  B inner=lt(0,k.s)&lt(k.s,1)&lt(0,k.t)&lt(k.t,1);
  if(r==e_overlapping){
    ENSURE(eq(k.cr,0),"overlap only for parallel segments");
    ENSURE(le((k.x[0]-x[0][0])*(k.x[0]-x[1][0])+(k.x[1]-x[0][1])*(k.x[1]-x[1][1]),0),"every common point lies between the two reported points");
    COVER("overlap");
  } else if(r==e_crossing){
    ENSURE(ne(k.cr,0)&inner,"crossing means interior to both");
    ENSURE(same(x[0],k.x),"crossing point is the common point"); COVER("crossing");
  } else {
    ENSURE(ne(k.cr,0)&!inner,"endpoint means an end of one segment touches"); 
    ENSURE(same(x[0],k.x),"touching point is the common point"); COVER("endpoint");
  }
}
// two non-parallel lines always meet in exactly one point X (s,t: its parameters on the two segments)
VC_MAIN(seg2_sound){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s=R("s"),t=R("t");
  REQUIRE(ne(cr2(ux,uy,vx,vy),0)); REQUIRE(lt(s,0)|lt(1,s)|lt(t,0)|lt(1,t));
  P2 a{X-s*ux,Y-s*uy},b{X+(1-s)*ux,Y+(1-s)*uy},c{X-t*vx,Y-t*vy},d{X+(1-t)*vx,Y+(1-t)*vy};
  P2 x[2]={P2{7.,7.},P2{7.,7.}};
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp);
  ENSURE(bl(r==e_non_crossing),"segments on non-parallel lines without a common point are not reported"); COVER("none");
}
// parallel: d-c = k*u, c = a + s*u + w*perp(u) covers every parallel pair
VC_MAIN(seg2_parallel){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),s=R("s"),w=R("w"),k=R("k");
  REQUIRE(ne(ux,0)|ne(uy,0)); REQUIRE(ne(k,0));
  P2 a{X,Y},b{X+ux,Y+uy},c{X+s*ux-w*uy,Y+s*uy+w*ux},d{c[0]+k*ux,c[1]+k*uy};
  P2 x[2]={P2{7.,7.},P2{7.,7.}};
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp);
  double lo=mn(s,s+k),hi=mx(s,s+k),l=mx(lo,0),h=mn(hi,1);
  ENSURE(iff(ne(w,0)|lt(hi,0)|lt(1,lo),bl(r==e_non_crossing)),"parallel segments are unrelated exactly when they share no point");
  ENSURE(imp(eq(w,0)&lt(l,h),bl(r==e_overlapping)),"parallel segments sharing more than one point overlap");
  if(r==e_overlapping||r==e_endpoint){
    P2 pl{X+l*ux,Y+l*uy},ph{X+h*ux,Y+h*uy};
    if(r==e_overlapping) ENSURE((same(x[0],pl)&same(x[1],ph))|(same(x[0],ph)&same(x[1],pl)),"the two reported points bound the shared part"); 
    else ENSURE(same(x[0],pl)&eq(l,h),"collinear touching point");
    COVER("overlap");
  } else { ENSURE(bl(r==e_non_crossing),"result is a defined category for parallel segments"); COVER("none"); }
}
VC_MAIN(seg2_overloads){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),d=rp2("dx","dy");
  P2 x[2]={P2{0.,0.},P2{0.,0.}},y[2]={P2{0.,0.},P2{0.,0.}};
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp);
  auto q=segment_segment_intersection(S2{a,b},S2{c,d},y,dcmp);
  auto n=segment_segment_intersection(a,b,c,d,(P2*)nullptr,dcmp);
  ENSURE(bl(r==q),"segment overload agrees"); ENSURE(bl(r==n),"result does not depend on an output buffer");
  ENSURE(same(x[0],y[0])&same(x[1],y[1]),"segment overload reports the same points"); COVER("end");
}
// ---- 2D with an absolute tolerance: exact crossings well inside both segments are never lost, reported points stay on the first line
VC_MAIN(seg2_tolerance){
  Common2 k=common2(); double e=Rpos("eps"); REQUIRE(lt(e,0.3));
  REQUIRE(lt(e,k.cr)|lt(k.cr,-e));
  P2 x[2]={P2{0.,0.},P2{0.,0.}};
  absolute_tolerance_comparison_policy<double> cmp(e);
  auto r=segment_segment_intersection(k.a,k.b,k.c,k.d,x,cmp);
  ENSURE(bl(r==e_crossing||r==e_endpoint),"common point is reported under a tolerance");
  ENSURE(same(x[0],k.x),"common point reported exactly under a tolerance");
  B deep=lt(e,k.s)&lt(k.s,1-e)&lt(e,k.t)&lt(k.t,1-e);
  ENSURE(imp(deep,bl(r==e_crossing)),"deep crossing is a crossing");
  B atend=eq(k.s,0)|eq(k.s,1)|eq(k.t,0)|eq(k.t,1);
  ENSURE(imp(atend,bl(r==e_endpoint)),"touching at an end is an endpoint result");
  COVER("end");
}
VC_MAIN(seg2_tolerance_sound){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s=R("s"),t=R("t"),e=Rpos("eps");
  REQUIRE(lt(e,0.3)); double cr=cr2(ux,uy,vx,vy); REQUIRE(lt(e,cr)|lt(cr,-e));
  P2 a{X-s*ux,Y-s*uy},b{X+(1-s)*ux,Y+(1-s)*uy},c{X-t*vx,Y-t*vy},d{X+(1-t)*vx,Y+(1-t)*vy};
  REQUIRE(lt(s,-e)|lt(1+e,s)|lt(t,-e)|lt(1+e,t));
  P2 x[2]={P2{0.,0.},P2{0.,0.}};
  absolute_tolerance_comparison_policy<double> cmp(e);
  auto r=segment_segment_intersection(a,b,c,d,x,cmp);
  ENSURE(bl(r==e_non_crossing),"clearly separated segments are not reported"); COVER("end");
}
// ---- lines
VC_MAIN(line_line){
  P2 a=rp2("ax","ay"),b=rp2("bx","by"),c=rp2("cx","cy"),d=rp2("dx","dy");
  REQUIRE(ne(a[0],b[0])|ne(a[1],b[1])); REQUIRE(ne(c[0],d[0])|ne(c[1],d[1]));
  double cr=cr2(b[0]-a[0],b[1]-a[1],d[0]-c[0],d[1]-c[1]);
  P2 x{0.,0.},y{0.,0.}; double s=0,t=0;
  auto r=line_line_intersect(a,b,c,d,x,s,t,dcmp);
  auto q=line_line_intersect(a,b,c,d,y,dcmp);
  ENSURE(bl(r==q),"overloads agree");
  ENSURE(iff(ne(cr,0),bl(r==e_crossing)),"crossing exactly when not parallel");
  ENSURE(iff(eq(cr,0)&online(c,a,b),bl(r==e_overlapping)),"overlapping exactly when the same line");
  if(r==e_crossing){
    ENSURE(online(x,a,b)&online(x,c,d),"point on both lines"); ENSURE(same(x,y),"overloads report the same point");
    ENSURE(eq(x[0],a[0]+s*(b[0]-a[0]))&eq(x[1],a[1]+s*(b[1]-a[1])),"s is the parameter on the first line");
    ENSURE(eq(x[0],c[0]+t*(d[0]-c[0]))&eq(x[1],c[1]+t*(d[1]-c[1])),"t is the parameter on the second line"); COVER("cross");
  } else COVER("parallel");
}
VC_MAIN(line_segment){
  double X=R("X"),Y=R("Y"),ux=R("ux"),uy=R("uy"),vx=R("vx"),vy=R("vy"),s=R("s"),t=R("t");
  double cr=cr2(ux,uy,vx,vy); REQUIRE(ne(cr,0));
  P2 a{X-s*ux,Y-s*uy},b{X+(1-s)*ux,Y+(1-s)*uy},c{X-t*vx,Y-t*vy},d{X+(1-t)*vx,Y+(1-t)*vy};
  P2 x{0.,0.},y{0.,0.};
  auto r=line_segment_intersect(a,b,c,d,x,dcmp); auto q=line_segment_intersect(a,b,S2{c,d},y,dcmp);
  ENSURE(bl(r==q),"overloads agree");
  ENSURE(iff(lt(0,t)&lt(t,1),bl(r==e_crossing)),"crossing exactly when interior to the segment");
  ENSURE(iff(eq(t,0)|eq(t,1),bl(r==e_endpoint)),"endpoint exactly when at an end");
  ENSURE(iff(lt(t,0)|lt(1,t),bl(r==e_non_crossing)),"none exactly when outside");
  if(r!=e_non_crossing) ENSURE(eq(x[0],X)&eq(x[1],Y)&same(x,y),"reported point is the common point");
  COVER("end");
}
VC_MAIN(line_segment_parallel){
  P2 a=rp2("ax","ay"),c=rp2("cx","cy"); double ux=R("ux"),uy=R("uy"),k=R("k"); REQUIRE(ne(ux,0)|ne(uy,0));
  P2 b{a[0]+ux,a[1]+uy},d{c[0]+k*ux,c[1]+k*uy}; P2 x{0.,0.};
  auto r=line_segment_intersect(a,b,c,d,x,dcmp);
  ENSURE(iff(online(c,a,b),bl(r==e_overlapping)),"overlapping exactly when on the line"); ENSURE(bl(r==e_overlapping||r==e_non_crossing),"parallel result"); COVER("end");
}
// ---- 3D
VC_MAIN(seg3_complete){
  double X=R("X"),Y=R("Y"),Z=R("Z"),ux=R("ux"),uy=R("uy"),uz=R("uz"),vx=R("vx"),vy=R("vy"),vz=R("vz"),s=Runit("s"),t=Runit("t");
  double c0=uy*vz-uz*vy,c1=uz*vx-ux*vz,c2=ux*vy-uy*vx;
  REQUIRE(ne(c0,0)|ne(c1,0)|ne(c2,0));
  P3 a{X-s*ux,Y-s*uy,Z-s*uz},b{X+(1-s)*ux,Y+(1-s)*uy,Z+(1-s)*uz},c{X-t*vx,Y-t*vy,Z-t*vz},d{X+(1-t)*vx,Y+(1-t)*vy,Z+(1-t)*vz};
  P3 x[2]={P3{0.,0.,0.},P3{0.,0.,0.}};
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp);
  B inner=lt(0,s)&lt(s,1)&lt(0,t)&lt(t,1);
  ENSURE(iff(inner,bl(r==e_crossing)),"3D crossing exactly when interior to both");
  ENSURE(iff(!inner,bl(r==e_endpoint)),"3D endpoint exactly when an end touches");
  ENSURE(same(x[0],P3{X,Y,Z}),"3D point is the common point"); COVER("end");
}
// non-parallel lines in space: the common perpendicular n=u x v joins X on the first to X+w*n on the second
VC_MAIN(seg3_sound){
  double X=R("X"),Y=R("Y"),Z=R("Z"),ux=R("ux"),uy=R("uy"),uz=R("uz"),vx=R("vx"),vy=R("vy"),vz=R("vz"),s=R("s"),t=R("t"),w=R("w");
  double c0=uy*vz-uz*vy,c1=uz*vx-ux*vz,c2=ux*vy-uy*vx;
  REQUIRE(ne(c0,0)|ne(c1,0)|ne(c2,0)); REQUIRE(ne(w,0)|lt(s,0)|lt(1,s)|lt(t,0)|lt(1,t));
  P3 a{X-s*ux,Y-s*uy,Z-s*uz},b{X+(1-s)*ux,Y+(1-s)*uy,Z+(1-s)*uz};
  P3 c{X+w*c0-t*vx,Y+w*c1-t*vy,Z+w*c2-t*vz},d{X+w*c0+(1-t)*vx,Y+w*c1+(1-t)*vy,Z+w*c2+(1-t)*vz};
  P3 x[2]={P3{0.,0.,0.},P3{0.,0.,0.}};
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp);
  ENSURE(bl(r==e_non_crossing),"3D segments without a common point are not reported"); COVER("none");
}
VC_MAIN(seg3_overloads){
  P3 a=rp3("ax","ay","az"),b=rp3("bx","by","bz"); double s=R("s"),t=R("t"),vx=R("vx"),vy=R("vy"),vz=R("vz");
  P3 c{a[0]+s*(b[0]-a[0])-t*vx,a[1]+s*(b[1]-a[1])-t*vy,a[2]+s*(b[2]-a[2])-t*vz},d{c[0]+vx,c[1]+vy,c[2]+vz};
  P3 x[2]={P3{0.,0.,0.},P3{0.,0.,0.}},y[2]={P3{0.,0.,0.},P3{0.,0.,0.}};
  double ux=b[0]-a[0],uy=b[1]-a[1],uz=b[2]-a[2]; REQUIRE(ne(uy*vz-uz*vy,0)|ne(uz*vx-ux*vz,0)|ne(ux*vy-uy*vx,0));
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp); auto q=segment_segment_intersection(S3{a,b},S3{c,d},y,dcmp);
  ENSURE(bl(r==q)&same(x[0],y[0]),"3D segment overload agrees"); COVER("end");
}
VC_MAIN(seg3_parallel){
  double X=R("X"),Y=R("Y"),Z=R("Z"),ux=R("ux"),uy=R("uy"),uz=R("uz"),s=R("s"),t=R("t");
  REQUIRE(ne(ux,0)|ne(uy,0)|ne(uz,0)); REQUIRE(ne(s,t));
  // c,d = a + s*u, a + t*u : any collinear segment
  P3 a{X,Y,Z},b{X+ux,Y+uy,Z+uz},c{X+s*ux,Y+s*uy,Z+s*uz},d{X+t*ux,Y+t*uy,Z+t*uz};
  P3 x[2]={P3{0.,0.,0.},P3{0.,0.,0.}};
  auto r=segment_segment_intersection(a,b,c,d,x,dcmp);
  double lo=mn(s,t),hi=mx(s,t);
  ENSURE(iff(lt(hi,0)|lt(1,lo),bl(r==e_non_crossing)),"3D collinear: disjoint exactly when parameter intervals are");
  ENSURE(iff(eq(hi,0)|eq(lo,1),bl(r==e_endpoint)),"3D collinear: endpoint exactly when they touch");
  if(r==e_overlapping){
    double l=mx(lo,0),h=mn(hi,1);
    ENSURE(same(x[0],P3{X+l*ux,Y+l*uy,Z+l*uz}),"3D overlap start"); ENSURE(same(x[1],P3{X+h*ux,Y+h*uy,Z+h*uz}),"3D overlap end"); COVER("overlap");
  }
  if(r==e_endpoint){ double l=mx(lo,0); ENSURE(same(x[0],P3{X+l*ux,Y+l*uy,Z+l*uz}),"3D touching point"); COVER("endpoint"); }
}
