// DEPENDS: C09_boxes.cpp
// CONTRACT: detail_separating_axis::no_intersect, moving_obb_obb_intersection - algorithm/intersection/detail/separating_axis_common.hpp, algorithm/intersection/moving_obb_obb_intersection.hpp
// CONTRACT: moving_sphere_aabb_intersection, moving_sphere_obb_intersection (centre starting outside the box; over the contracts of ray_aabb_intersection and moving_sphere_segment_intersection) - algorithm/intersection/moving_sphere_aabb_intersection.hpp, algorithm/intersection/moving_sphere_obb_intersection.hpp
#include "geo.h"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/line_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
using SPH=sphere<2,P2>; using OBB=oriented_bounding_box<P2,V2>; using AABB2=axis_aligned_bounding_box<P2>;
static V2 unit(const char* n){ double k=R(n),f=vc_bool("flip")?-1:1; return V2{f*(1-k*k)/(1+k*k),f*2*k/(1+k*k)}; }
static P2 at(const P2& c,const V2& d,double x,double y){ return P2{c[0]+x*d[0]-y*d[1],c[1]+x*d[1]+y*d[0]}; }
static V2 dir(const V2& d,double x,double y){ return V2{x*d[0]-y*d[1],x*d[1]+y*d[0]}; }
static B ov(double sp,double a,double b,double c,double d,double T){ return le(c+T*sp,b)&le(a,d+T*sp); }
static B in(double T,double a,double b){ return le(a,T)&le(T,b); }
VC_MAIN(axis_interval){
  double tm=Rnn("tmax"),sp=R("sp"),a=R("a"),b=a+Rnn("la"),c=R("c"),d=c+Rnn("lc"),tf=Rnn("tf"),T=R("T"),tl=vc_bool("open")?std::numeric_limits<double>::infinity():tf+Rnn("dt"); REQUIRE(le(tf,tm)); FAR(sp,0); FAR(b,c); FAR(d,a); FAR((a-d),sp*tf); FAR((b-c),sp*tf); FAR((a-d),sp*tm); FAR(b-c,sp*tm);
  int side=0; double f=tf,l=tl; bool no=detail_separating_axis::no_intersect(tm,sp,a,b,c,d,side,f,l); B was=in(T,tf,tl)&ov(sp,a,b,c,d,T);
  if(no) ENSURE(Not(was&le(T,tm)),"a rejected axis separates the boxes at every time left"); else { ENSURE(iff(was,in(T,f,l)),"the interval left is exactly the times this axis does not separate"); ENSURE(le(f,l)&le(f,tm)&le(tf,f)&le(l,tl),"the interval left is not empty and starts in time"); }
  COVER("end");
}
typedef bool (*NI)(const double&,const double&,const double&,const double&,const double&,const double&,int&,double&,double&);
static double gT,gW,mT[4],mW[4]; static int gi; struct mob { double k,c,s,x,y,a,b,u,v,vx,vy; }; static mob g;
// axis i separates the boxes at time t, read from the relative position of the boxes
static B apart(int i,double t){ double X=g.x+t*g.vx,Y=g.y+t*g.vy,c=g.c,s=g.s; return i==0?lt(g.a+g.u*ab(c)+g.v*ab(s),ab(X)):i==1?lt(g.b+g.u*ab(s)+g.v*ab(c),ab(Y)):i==2?lt(g.u+g.a*ab(c)+g.b*ab(s),ab(X*c+Y*s)):lt(g.v+g.a*ab(s)+g.b*ab(c),ab(-X*s+Y*c)); }
__attribute__((noinline)) static bool ni_contract(const double& tm,const double& sp,const double& a,const double& b,const double& c,const double& d,int& side,double& f,double& l){
  int i=gi++; vc_ensure((0<=f)&(f<=l)&(f<=tm)&(a<=b)&(c<=d),"interval query is asked with an interval and boxes that are not empty"); bool no=vc_bool("no");
  B oT=ov(sp,a,b,c,d,gT),oW=ov(sp,a,b,c,d,gW); ENSURE(iff(oT,!apart(i,gT)),"the projections asked about are those of the boxes on the next axis"); mT[i]=R("mT"); mW[i]=R("mW"); REQUIRE(iff(oT,le(0,mT[i]))); REQUIRE(iff(oW,le(0,mW[i])));
  B was=in(gT,f,l)&le(0,mT[i]),wasW=in(gW,f,l)&le(0,mW[i]);
  if(no){ REQUIRE(Not(was&le(gT,tm))); return true; }
  double nf=R("nf"); bool op=vc_bool("open"); double nl=op?std::numeric_limits<double>::infinity():R("nl"); vc_assume(f<=nf); vc_assume(nf<=tm); vc_assume(nl<=l); vc_assume(nf<=nl); REQUIRE(iff(was,in(gT,nf,nl))); REQUIRE(iff(wasW,in(gW,nf,nl))); side=(int)vc_int("side",-1,1); f=nf; l=nl; return false; }
VC_MAIN(moving_obb){
  vc_opt("ite","1"); vc_use_contract((void*)static_cast<NI>(&detail_separating_axis::no_intersect<double,double,double>),(void*)&ni_contract);
  double k=R("k"),f=vc_bool("flip")?-1:1,c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k),k2=R("k2"),f2=vc_bool("flip2")?-1:1,c2=f2*(1-k2*k2)/(1+k2*k2),s2=f2*2*k2/(1+k2*k2),x=R("x"),y=R("y"),a=Rnn("a"),b=Rnn("b"),u=Rnn("u"),v=Rnn("v"),vx=R("vx"),vy=R("vy"); P2 o=rp2("ox","oy"); V2 d{c2,s2},v1=rv2("v1x","v1y"),w=dir(d,vx,vy); double tm=Rnn("tmax"),tf=-7,tl=-7,T=Rnn("T"),W=R("W"); gT=T; gW=W; gi=0; g=mob{k,c,s,x,y,a,b,u,v,vx,vy};
  double cc=c*c2-s*s2,ss=s*c2+c*s2; for(double t:{0.,T,tm}){ double X=x+t*vx,Y=y+t*vy; FAR(a+u*ab(c)+v*ab(s),ab(X)); FAR(b+u*ab(s)+v*ab(c),ab(Y)); FAR(u+a*ab(c)+b*ab(s),ab(X*c+Y*s)); FAR(v+a*ab(s)+b*ab(c),ab(-X*s+Y*c)); } FAR(vx,0); FAR(vy,0); FAR(vx*c+vy*s,0); FAR(-vx*s+vy*c,0);
  bool got=moving_obb_obb_intersection(OBB(o,d,V2{-s2,c2},a,b),v1,OBB(at(o,d,x,y),V2{cc,ss},V2{-ss,cc},u,v),V2{v1[0]+w[0],v1[1]+w[1]},tm,tf,tl);
#ifdef VC_NATIVE
  W=tf; gi=4; for(int i=0;i<4;++i){ mT[i]=apart(i,T).v==0?1:apart(i,T).v==1?-1:0; mW[i]=got?(apart(i,W).v==1?-1:1):0; }
#endif
  auto meet=[&](double* m){ B r=bl(true); for(int i=0;i<4;++i) if(i<gi) r=r&le(0,m[i]); return r; };
  if(!got) ENSURE(imp(le(T,tm),!meet(mT)),"boxes reported apart are separated by one of the axes at every time up to the limit");
  else { ENSURE(bl(gi==4),"all four axes are asked"); ENSURE(in(tf,0,tm),"the first contact is within the time limit"); ENSURE(imp(lt(T,tf),!meet(mT)),"no earlier contact"); REQUIRE(eq(W,tf)); ENSURE(meet(mW),"the boxes meet at the first contact"); ENSURE(imp(in(T,tf,tl),meet(mT)),"the boxes overlap until the last contact"); }
  COVER("end");
}
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
// The expanded box, the entry point into it and the edge queries, as the box queries see them. Box frame: (0,0) is the lower corner, w by h.
struct mse { double x,y,vx,vy,w,h,r; P2 X; V2 d; }; static mse e_; static int eg[2],en; static bool ehit[2]; static double et[2],rt; static bool rhit,rin; static P2 eq_[2];
static P2 bp(double x,double y){ return at(e_.X,e_.d,x,y); }
typedef ray_aabb_intersection_result (*RAY)(const P2&,const V2&,const AABB2&,double&,P2&,const direct_comparison_policy&);
typedef moving_sphere_segment_intersection_result (*MSS)(const SPH&,const V2&,const S2&,double&,P2&,const direct_comparison_policy&);
static V2 RD; static P2 RX; // frame in which the ray query is asked (turned back for oriented boxes)
__attribute__((noinline)) static ray_aabb_intersection_result ray_contract(const P2& c,const V2& v,const AABB2& b,double& t,P2& q,const direct_comparison_policy&){
  P2 C=at(RX,RD,e_.x,e_.y); V2 V=dir(RD,e_.vx,e_.vy); P2 lo=at(RX,RD,-e_.r,-e_.r),hi=at(RX,RD,e_.w+e_.r,e_.h+e_.r); ENSURE(same(c,C)&eq(v[0],V[0])&eq(v[1],V[1]),"the ray is the path of the centre"); ENSURE(same(b.get_lower_bound(),lo)&same(b.get_upper_bound(),hi),"the box asked about is the box grown by the radius");
  rhit=vc_bool("rhit"); rin=(-e_.r<=e_.x)&(e_.x<=e_.w+e_.r)&(-e_.r<=e_.y)&(e_.y<=e_.h+e_.r); if(!rhit){ vc_assume(!rin); return ray_aabb_intersection_result(false); }
  rt=t=R("rt"); vc_assume(rt>=0); double x=R("rx"),y=R("ry"); vc_assume((-e_.r<=x)&(x<=e_.w+e_.r)); vc_assume((-e_.r<=y)&(y<=e_.h+e_.r));
  if(rin) vc_assume(rt==0); else { vc_assume(x==e_.x+rt*e_.vx); vc_assume(y==e_.y+rt*e_.vy); vc_assume(rt>0); vc_assume((x==-e_.r)|(x==e_.w+e_.r)|(y==-e_.r)|(y==e_.h+e_.r)); }
  q=at(RX,RD,x,y); return ray_aabb_intersection_result(true,rin); }
// edges: 0 bottom 1 right 2 top 3 left
__attribute__((noinline)) static moving_sphere_segment_intersection_result edge_contract(const SPH& s,const V2& v,const S2& g,double& t,P2& q,const direct_comparison_policy&){
  V2 V=dir(e_.d,e_.vx,e_.vy); ENSURE(same(s.get_center(),bp(e_.x,e_.y))&eq(s.get_radius(),e_.r)&eq(v[0],V[0])&eq(v[1],V[1]),"edge queries are about this sphere"); P2 k[4]={bp(0,0),bp(e_.w,0),bp(e_.w,e_.h),bp(0,e_.h)};
  long i=vc_choice("edge",0,3); REQUIRE((same(g.get_start(),k[i])&same(g.get_end(),k[(i+1)&3]))|(same(g.get_end(),k[i])&same(g.get_start(),k[(i+1)&3]))); int n=en++; if(n>1) return moving_sphere_segment_intersection_result(); eg[n]=i; ehit[n]=vc_bool("ehit"); if(ehit[n]){ t=et[n]=Rnn("et"); q=eq_[n]=rp2("eqx","eqy"); } return moving_sphere_segment_intersection_result(ehit[n],false,false,false,false); }
template<typename F> static void box_query(F f){
  en=0; double t=-7; P2 q{0.,0.}; rhit=false; bool got=f(t,q);
#ifndef VC_NATIVE
  if(!rhit){ ENSURE(bl(!got),"a sphere that never reaches the grown box misses"); COVER("miss"); return; }
  double x=e_.x+rt*e_.vx,y=e_.y+rt*e_.vy; bool xl=x<0,xh=x>e_.w,yl=y<0,yh=y>e_.h; // where the centre first is inside the grown box
  if((xl|xh)&(yl|yh)){ ENSURE(bl(en==2),"near a corner both edges are asked"); int a=xl?3:1,b=yl?0:2; ENSURE(bl((eg[0]==a&&eg[1]==b)||(eg[0]==b&&eg[1]==a)),"near a corner the two edges of that corner are asked");
    ENSURE(bl(got==(ehit[0]||ehit[1])),"near a corner the answer is that of the edges"); if(got){ bool first=ehit[0]&&(!ehit[1]||et[0]<=et[1]); ENSURE(eq(t,first?et[0]:et[1]),"the earlier edge contact is the contact"); if(!(ehit[0]&&ehit[1]&&et[0]==et[1])) ENSURE(same(q,first?eq_[0]:eq_[1]),"its contact point is reported"); } }
  else { ENSURE(bl(got)&eq(t,rt),"beside a face, contact is when the grown box is entered"); if((xl|xh|yl|yh)&&!rin) ENSURE(same(q,bp(xl?0:xh?e_.w:x,yl?0:yh?e_.h:y)),"beside a face, the contact point is the foot on the face"); }
  COVER("end");
#else
  double u=Rnn("u"),X=e_.x+u*e_.vx,Y=e_.y+u*e_.vy,gx=X<0?X:X>e_.w?X-e_.w:0,gy=Y<0?Y:Y>e_.h?Y-e_.h:0,D=gx*gx+gy*gy; if(!got) ENSURE(ge(D,sq(e_.r)),"a missing sphere never overlaps the box"); else { ENSURE(imp(lt(u,t),ge(D,sq(e_.r))),"no earlier contact"); X=e_.x+t*e_.vx; Y=e_.y+t*e_.vy; gx=X<0?X:X>e_.w?X-e_.w:0; gy=Y<0?Y:Y>e_.h?Y-e_.h:0; ENSURE(le(gx*gx+gy*gy,sq(e_.r)),"the sphere meets the box at the contact time"); if(t>0) ENSURE(same(q,bp(X-gx,Y-gy)),"contact point is the nearest box point"); }
#endif
}
static void use(){ vc_use_contract((void*)static_cast<RAY>(&ray_aabb_intersection<P2,V2,AABB2,double,P2,direct_comparison_policy>),(void*)&ray_contract); vc_use_contract((void*)static_cast<MSS>(&moving_sphere_segment_intersection<SPH,V2,S2,double,P2,direct_comparison_policy>),(void*)&edge_contract); }
static void figure(){ e_.w=Rpos("w"); e_.h=Rpos("h"); e_.r=Rpos("r"); e_.x=R("x"); e_.y=R("y"); e_.vx=R("vx"); e_.vy=R("vy"); REQUIRE(!(eq(e_.vx,0)&eq(e_.vy,0))); double gx=e_.x<0?e_.x:e_.x>e_.w?e_.x-e_.w:0,gy=e_.y<0?e_.y:e_.y>e_.h?e_.y-e_.h:0; FAR(gx*gx+gy*gy,e_.r*e_.r); FAR(e_.vx,0); FAR(e_.vy,0); FAR(e_.x,0); FAR(e_.y,0); FAR(e_.x,e_.w); FAR(e_.y,e_.h); FAR(e_.x,-e_.r); FAR(e_.y,-e_.r); FAR(e_.x,e_.w+e_.r); FAR(e_.y,e_.h+e_.r); }
VC_MAIN(moving_sphere_aabb){
  use(); figure(); P2 X=rp2("Xx","Xy"); e_.X=RX=X; e_.d=RD=V2{1.,0.};
  box_query([&](double& t,P2& q){ return (bool)moving_sphere_aabb_intersection(SPH(bp(e_.x,e_.y),e_.r),V2{e_.vx,e_.vy},AABB2(bp(0,0),bp(e_.w,e_.h)),t,q,dcmp); });
}
VC_MAIN(moving_sphere_obb){
  use(); figure(); P2 X=rp2("Xx","Xy"); e_.X=X; e_.d=unit("k"); double a=e_.w/2,b=e_.h/2; P2 o=bp(a,b); RD=V2{1.,0.}; RX=P2{o[0]-a,o[1]-b};
  box_query([&](double& t,P2& q){ return (bool)moving_sphere_obb_intersection(SPH(bp(e_.x,e_.y),e_.r),dir(e_.d,e_.vx,e_.vy),OBB(o,e_.d,V2{-e_.d[1],e_.d[0]},a,b),t,q,dcmp); });
}
// near a corner: whenever the sphere overlaps the box it has met one of the two edges of that corner by then (corner at the origin, box x>=0, y<=0)
VC_MAIN(geom_corner){
  double x0=R("x0"),y0=R("y0"),x1=R("x1"),y1=R("y1"),r=Rpos("r"),w=Rpos("w"),h=Rpos("h"),X=R("X"),Y=R("Y"); REQUIRE(lt(x0,0)&le(-r,x0)&lt(0,y0)&le(y0,r)); REQUIRE(le(0,X)&le(X,w)&le(-h,Y)&le(Y,0)); REQUIRE(lt(sq(x1-X)+sq(y1-Y),r*r));
  auto left=[&](double x,double y){ double g=y>0?y:y<-h?y+h:0; return lt(x*x+g*g,r*r); }; auto top=[&](double x,double y){ double g=x<0?x:x>w?x-w:0; return lt(g*g+y*y,r*r); };
  if(x1<=0) ENSURE(left(x1,y1),"still left of the box, the left edge is met");
  else if(y1>=0) ENSURE(top(x1,y1),"still above the box, the top edge is met");
  else { double k=R("k"),m=R("m"); REQUIRE(eq(x0+k*(x1-x0),0)); REQUIRE(eq(y0+m*(y1-y0),0)); LEMMA(le(0,k)&le(k,1)&le(0,m)&le(m,1),"the path crosses both edge lines");
    if(m<=k){ double xm=R("xm"); REQUIRE(eq(xm,x0+m*(x1-x0))); LEMMA(le(x0,xm)&le(xm,0),"the path is left of the corner when it passes its height"); ENSURE(left(xm,0)|eq(xm,-r),"the left edge is met on the way"); }
    else { double yk=R("yk"); REQUIRE(eq(yk,y0+k*(y1-y0))); LEMMA(le(0,yk)&le(yk,y0),"the path is above the corner when it passes it"); ENSURE(top(0,yk)|eq(yk,r),"the top edge is met on the way"); } }
  COVER("end");
}
