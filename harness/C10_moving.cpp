// CONTRACT: moving_sphere_plane_intersection (line in the plane), moving_sphere_sphere_intersection (both overloads) - algorithm/intersection/moving_sphere_plane_intersection.hpp, algorithm/intersection/moving_sphere_sphere_intersection.hpp
// CONTRACT: moving_sphere_segment_intersection - algorithm/intersection/moving_sphere_segment_intersection.hpp
#include "geo.h"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/line_traits.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
using SPH=sphere<2,P2>; using L2=line<P2>;
static V2 unit(const char* n){ double k=R(n),f=vc_bool("flip")?-1:1; return V2{f*(1-k*k)/(1+k*k),f*2*k/(1+k*k)}; }
static P2 at(const P2& c,const V2& d,double x,double y){ return P2{c[0]+x*d[0]-y*d[1],c[1]+x*d[1]+y*d[0]}; }
static V2 dir(const V2& d,double x,double y){ return V2{x*d[0]-y*d[1],x*d[1]+y*d[0]}; }
VC_MAIN(sphere_line){
  P2 X=rp2("Xx","Xy"); V2 d=unit("k"); double x=R("x"),y=R("y"),r=Rnn("r"),vx=R("vx"),vy=R("vy"); P2 q{0.,0.}; double t=-7; FAR(ab(y),r); FAR(y*vy,0);
  auto g=moving_sphere_plane_intersection(SPH(at(X,d,x,y),r),dir(d,vx,vy),L2(X,d),t,q,dcmp);
  B over=le(ab(y),r); ENSURE(iff(over|lt(y*vy,0),bl(g.is_intersecting())),"a moving sphere meets a line exactly when it overlaps it or moves towards it"); ENSURE(iff(ge(y*vy,0),bl(g.is_moving_away())),"moving away exactly when not approaching");
  if(g.is_intersecting()){ ENSURE(imp(over,eq(t,0)),"an overlapping sphere hits at once"); ENSURE(imp(!over,lt(0,t)&eq(ab(y+t*vy),r)&le(0,y*(y+t*vy))),"a moving sphere first touches the line from its own side"); ENSURE(same(q,at(X,d,x+t*vx,0)),"the contact point is the foot of the centre on the line"); }
  COVER("end");
}
VC_MAIN(sphere_sphere){
  P2 c0=rp2("cx","cy"); V2 d=unit("k"),v0=rv2("ax","ay"); double L=Rnn("L"),x=R("x"),y=R("y"),r0=Rpos("r0"),r1=Rnn("r1"),S=r0+r1; P2 c1=at(c0,d,x,y); V2 v1{v0[0]+L*d[0],v0[1]+L*d[1]}; P2 q{0.,0.}; double t=-7; FAR(x*x+y*y,S*S); FAR(y*y,S*S); FAR(x,0);
  bool g=moving_sphere_sphere_intersection(SPH(c0,r0),SPH(c1,r1),v0,v1,t,q,dcmp); B over=lt(x*x+y*y,S*S);
  ENSURE(iff(over|(lt(x,0)&lt(0,L)&le(y*y,S*S)),bl(g)),"two moving spheres meet exactly when they overlap or their centres come within reach"); ENSURE(bl(g==moving_sphere_sphere_intersection(SPH(c0,r0),SPH(c1,r1),v0,v1,dcmp)),"predicate form agrees");
  if(g){ ENSURE(imp(over,eq(t,0)),"overlapping spheres meet at once"); ENSURE(imp(!over,le(0,t)&le(x+t*L,0)&eq(sq(x+t*L)+y*y,S*S)),"moving spheres meet at the first touching time");
    if(t>0){ P2 n0{c0[0]+t*v0[0],c0[1]+t*v0[1]},n1{c1[0]+t*v1[0],c1[1]+t*v1[1]}; ENSURE(eq(dist2(q,n0),r0*r0)&eq(dist2(q,n1),r1*r1),"the contact point is on both spheres at that time"); } }
  COVER("end");
}

namespace D=moving_sphere_segment_intersection_detail;
typedef bool (*EPF)(const V2&,const P2&,const double&,double&,P2&,const P2&,const direct_comparison_policy&);
typedef moving_sphere_plane_intersection_result (*PLF)(const SPH&,const V2&,const L2&,double&,P2&,const direct_comparison_policy&);
// frame shared by the contracts: centre at (x,y), velocity (vx,vy), all in the frame (X,d)
static P2 gX; static V2 gd; static double gx,gy,gvx,gvy,gr,gL;
// the sphere of radius r at (x,y) relative to the end point, moving with (vx,vy)
static B ep_over(double x,double y,double r){ return lt(x*x+y*y,r*r); }
static B ep_hit(double x,double y,double vx,double vy,double r){ return ep_over(x,y,r)|(lt(x*vx+y*vy,0)&le(sq(x*vy-y*vx),r*r*(vx*vx+vy*vy))); }
static B ep_first(double x,double y,double vx,double vy,double r,double t){ double a=x+t*vx,b=y+t*vy; return le(0,t)&imp(ep_over(x,y,r),eq(t,0)|(le(a*vx+b*vy,0)&eq(a*a+b*b,r*r)))&imp(!ep_over(x,y,r),le(a*vx+b*vy,0)&eq(a*a+b*b,r*r)); }
VC_MAIN(endpoint){
  P2 a=rp2("ax","ay"); V2 d=unit("k"); double x=R("x"),y=R("y"),w=Rpos("w"),r=Rpos("r"); P2 q{0.,0.}; double t=-7; REQUIRE(lt(0,x*x+y*y)); FAR(x,0); FAR(y*y,r*r); FAR(x*x+y*y,r*r);
  bool g=D::moving_sphere_toward_segment_endpoint_intersect(V2{w*d[0],w*d[1]},at(a,d,x,y),r,t,q,a,dcmp); B over=ep_over(x,y,r);
  ENSURE(iff(ep_hit(x,y,w,0,r),bl(g)),"a moving sphere meets an end point exactly when it covers it or comes within its radius"); 
  if(g){ ENSURE(imp(over,eq(t,0)),"a covered end point is hit at once"); ENSURE(imp(!over,le(0,t)&le(x+t*w,0)&eq(sq(x+t*w)+y*y,r*r)),"an end point is hit at the first touching time"); ENSURE(imp(!over,same(q,a)),"the contact point is the end point"); }
  COVER("end");
}
// lemmas over the end point contract: the disc at the end point is not entered at u (strict: not touched before the contact time)
static B lem_miss(double x,double y,double vx,double vy,double r,double u){ return imp(Not(ep_hit(x,y,vx,vy,r))&le(0,u),ge(sq(x+u*vx)+sq(y+u*vy),r*r)); }
static B lem_first(double x,double y,double vx,double vy,double r,double t,double u){ double a=x+t*vx,b=y+t*vy; return imp(le(a*vx+b*vy,0)&eq(a*a+b*b,r*r)&le(0,u)&lt(u,t),gt(sq(x+u*vx)+sq(y+u*vy),r*r)); }
VC_MAIN(lemma_miss){ double x=R("x"),y=R("y"),vx=R("vx"),vy=R("vy"),r=Rpos("r"),u=R("u"); REQUIRE(lt(0,vx*vx+vy*vy)); ENSURE(lem_miss(x,y,vx,vy,r,u),"a missed end point stays outside the sphere"); COVER("end"); }
VC_MAIN(lemma_first){ double x=R("x"),y=R("y"),vx=R("vx"),vy=R("vy"),r=Rpos("r"),t=R("t"),u=R("u"); REQUIRE(lt(0,vx*vx+vy*vy)); ENSURE(lem_first(x,y,vx,vy,r,t,u),"an end point stays strictly outside before its contact"); COVER("end"); }
// beyond the end point the end point is the nearest; and a path from inside the strip that passes the end point outside its disc keeps leaving the strip
static B lem_side(double x0,double x1,double m){ return imp(le(m*x0,0)&lt(0,x0*x1),ge(sq(x1-m),x1*x1)); }
static B lem_leave(double y0,double y1,double k){ double yk=y0+k*(y1-y0); return imp(lt(0,k)&le(k,1)&le(y0*y0,yk*yk),le(yk*yk,y1*y1)); }
VC_MAIN(lemma_side){ double x0=R("x0"),x1=R("x1"),m=R("m"); ENSURE(lem_side(x0,x1,m),"the end point is the nearest point of the segment beyond the end"); COVER("end"); }
VC_MAIN(lemma_leave){ double y0=R("y0"),y1=R("y1"),k=R("k"); ENSURE(lem_leave(y0,y1,k),"a path leaving the strip keeps leaving it"); COVER("end"); }
static double gp,gt0,gz,gept; static bool gep,gpl,gepg;
__attribute__((noinline)) static bool ep_contract(const V2& v,const P2& c,const double& r,double& t,P2& q,const P2& a,const direct_comparison_policy&){
  bool second=vc_bool("second"); double p=second?gL:0; gp=p; gep=true; vc_assume((a[0]==at(gX,gd,p,0)[0])&(a[1]==at(gX,gd,p,0)[1])); 
  vc_ensure((c[0]==at(gX,gd,gx,gy)[0])&(c[1]==at(gX,gd,gx,gy)[1])&(r==gr)&(v[0]==dir(gd,gvx,gvy)[0])&(v[1]==dir(gd,gvx,gvy)[1]),"end point query is about this sphere");
  bool g=vc_bool("epg"); REQUIRE(iff(ep_hit(gx-p,gy,gvx,gvy,gr),bl(g))); gepg=g; if(!g) return false;
  if((gx-p)*(gx-p)+gy*gy<gr*gr){ t=0; gept=0; q=P2{R("qx"),R("qy")}; return true; }
  t=R("tt"); double X=gx-p+t*gvx,Y=gy+t*gvy; vc_assume(t>=0); vc_assume(X*gvx+Y*gvy<=0); vc_assume(X*X+Y*Y==gr*gr); gept=t; q=a; return true; }
__attribute__((noinline)) static moving_sphere_plane_intersection_result pl_contract(const SPH& s,const V2& v,const L2& l,double& t,P2& q,const direct_comparison_policy&){
  vc_ensure((s.get_center()[0]==at(gX,gd,gx,gy)[0])&(s.get_center()[1]==at(gX,gd,gx,gy)[1])&(s.get_radius()==gr)&(v[0]==dir(gd,gvx,gvy)[0])&(v[1]==dir(gd,gvx,gvy)[1]),"line query is about this sphere");
  const V2& n=l.get_parallel_vector(); vc_ensure((n[0]==gd[0])&(n[1]==gd[1]),"line query is about the line of the segment"); const P2& u=l.get_reference_point(); vc_ensure((u[0]==gX[0])&(u[1]==gX[1]),"line query is about the line through the start");
  bool over=std::fabs(gy)<=gr, away=gy*gvy>=0; if(!over&&away) return moving_sphere_plane_intersection_result(false,false,away);
  if(over) t=0; else { t=R("tl"); vc_assume(t>0); vc_assume(std::fabs(gy+t*gvy)==gr); vc_assume(gy*(gy+t*gvy)>=0); }
  double z=R("z"); vc_assume(z==gx+t*gvx); gt0=t; gz=z; gpl=true; q=at(gX,gd,z,0); return moving_sphere_plane_intersection_result(true,vc_bool("pen"),away); }
VC_MAIN(sphere_segment){
  vc_use_contract((void*)static_cast<EPF>(&D::moving_sphere_toward_segment_endpoint_intersect<V2,P2,double,P2,double,P2,direct_comparison_policy>),(void*)&ep_contract);
  vc_use_contract((void*)static_cast<PLF>(&moving_sphere_plane_intersection<SPH,V2,L2,double,P2,direct_comparison_policy>),(void*)&pl_contract);
  P2 X=rp2("Xx","Xy"); V2 d=unit("k"); double L=Rpos("L"),x=R("x"),y=R("y"),r=Rpos("r"),vx=R("vx"),vy=R("vy"); REQUIRE(lt(0,vx*vx+vy*vy)); P2 q{0.,0.}; double t=-7; double cx=x<0?x:x>L?x-L:0;
  FAR(ab(y),r); FAR(y*vy,0); FAR(cx*cx+y*y,r*r); FAR(x,0); FAR(x,L); gX=X; gd=d; gx=x; gy=y; gvx=vx; gvy=vy; gr=r; gL=L; gep=gpl=false;
  auto g=moving_sphere_segment_intersection(SPH(at(X,d,x,y),r),dir(d,vx,vy),S2{at(X,d,0,0),at(X,d,L,0)},t,q,dcmp);
  B over=lt(cx*cx+y*y,r*r); bool hit=g.is_intersecting();
  B away=lt(r,ab(y))&ge(y*vy,0); ENSURE(imp(away,bl(!hit)),"a sphere moving away from the line misses the segment");
#ifndef VC_NATIVE
  if(gpl){ double z=gz; B on=le(0,z)&le(z,L); ENSURE(imp(on,bl(hit&&!gep)&eq(t,gt0)),"contact with the line on the segment is the contact with the segment");
    ENSURE(imp(!on,bl(gep)&imp(lt(z,0),eq(gp,0))&imp(gt(z,L),eq(gp,L))),"contact with the line beyond an end asks that end point");
    if(gep){ ENSURE(bl(gepg==hit),"then the end point decides"); if(hit) ENSURE(eq(t,gept),"at its contact time"); }
    if(hit&&!gep) ENSURE(same(q,at(X,d,z,0)),"contact point is on the segment");
    if(hit&&gep&&!(cx*cx+y*y<r*r)) ENSURE(same(q,at(X,d,gp,0)),"contact point is the end point"); }
  else { ENSURE(bl(!hit),"a sphere that never meets the line misses the segment"); ENSURE(away,"the line is only missed by moving away"); }
#endif
  COVER("end");
}
// From the answer established by sphere_segment the geometric claims follow for every time u and every point of the segment:
static B first_line(double y,double vy,double r,double t0){ return imp(le(ab(y),r),eq(t0,0))&imp(lt(r,ab(y)),lt(0,t0)&eq(ab(y+t0*vy),r)&le(0,y*(y+t0*vy))); }
VC_MAIN(geom_away){ double y=R("y"),vy=R("vy"),r=Rpos("r"),u=Rnn("u"); REQUIRE(lt(r,ab(y))&ge(y*vy,0)); ENSURE(lt(r*r,sq(y+u*vy)),"moving away stays out of reach of the whole line"); COVER("end"); }
VC_MAIN(geom_before){ double y=R("y"),vy=R("vy"),r=Rpos("r"),u=Rnn("u"),t0=R("t0"); REQUIRE(first_line(y,vy,r,t0)&lt(u,t0)); ENSURE(lt(r*r,sq(y+u*vy)),"before the line is met the sphere is out of reach of the whole line"); COVER("end"); }
static B lem_cross(double x0,double y0,double x1,double y1,double k,double r2,bool st){ double yk=y0+k*(y1-y0); return imp(ne(x0,0)&le(x0*x1,0)&eq(x0+k*(x1-x0),0)&le(y0*y0,r2)&(st?gt(yk*yk,r2):ge(yk*yk,r2)),lt(0,k)&le(k,1)&(st?gt(y1*y1,r2):ge(y1*y1,r2))); }
VC_MAIN(lemma_cross){ double x0=R("x0"),x1=R("x1"),y0=R("y0"),y1=R("y1"),k=R("k"),r2=Rpos("r2"); REQUIRE(ne(x0,0)&le(x0*x1,0)&eq(x0+k*(x1-x0),0)); LEMMA(lt(0,k)&le(k,1),"crossing fraction"); REQUIRE(lem_leave(y0,y1,k)); ENSURE(lem_cross(x0,y0,x1,y1,k,r2,false),"passing beside the end point outside its disc leaves the strip"); ENSURE(lem_cross(x0,y0,x1,y1,k,r2,true),"passing beside the end point strictly outside its disc leaves the strip"); COVER("end"); }
static void geom_end(bool hit){ // frame at the end point, segment point at m, contact with the line at time t0 beyond the end, end contact at t
  double x=R("x"),y=R("y"),vx=R("vx"),vy=R("vy"),r=Rpos("r"),t0=Rnn("t0"),u=R("u"),m=R("m"),t=R("t"); double x0=x+t0*vx,y0=y+t0*vy,x1=x+u*vx,y1=y+u*vy,D=sq(x1-m)+y1*y1;
  REQUIRE(le(t0,u)); REQUIRE(ne(x0,0)&le(m*x0,0)); REQUIRE(le(y0*y0,r*r)); if(hit) REQUIRE(lt(u,t)&le((x+t*vx)*vx+(y+t*vy)*vy,0)&eq(sq(x+t*vx)+sq(y+t*vy),r*r)); else REQUIRE(Not(ep_hit(x,y,vx,vy,r)));
  if(x0*x1>0){ REQUIRE(lem_side(x0,x1,m)); REQUIRE(hit?lem_first(x,y,vx,vy,r,t,u):lem_miss(x,y,vx,vy,r,u)); ENSURE(hit?gt(D,r*r):ge(D,r*r),"nothing is reached while still beyond the end"); }
  else { double k=R("k"),tk=t0+k*(u-t0); REQUIRE(eq(x0+k*(x1-x0),0)); LEMMA(lt(0,k)&le(k,1),"crossing fraction"); REQUIRE(hit?lem_first(x,y,vx,vy,r,t,tk):lem_miss(x,y,vx,vy,r,tk)); LEMMA(le(0,tk)&le(tk,u),"crossing time"); REQUIRE(lem_cross(x0,y0,x1,y1,k,r*r,hit)); ENSURE(hit?gt(D,r*r):ge(D,r*r),"nothing is reached after passing beside the end"); }
  COVER("end");
}
VC_MAIN(geom_end_miss){ geom_end(false); }
VC_MAIN(geom_end_hit){ geom_end(true); }
