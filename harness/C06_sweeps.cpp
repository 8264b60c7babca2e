// CONTRACT: bisect, bisect_not_antiparallel, lerp - arithmetic/vector/bisect.hpp, lerp.hpp
#include "geo.h"
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
// lo = L*b*conj(h), hi = M*b*h with |b|=|h|=1: b is the bisecting direction, h the half sweep; h in the upper half plane = sweep in (0,2pi)
VC_MAIN(bisect){
  double k=R("k"),m=R("m"),L=Rpos("L"),M=Rpos("M"); double f=vc_bool("flip")?-1:1; double c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k);
  double hc=(1-m*m)/(1+m*m),hs=2*m/(1+m*m); REQUIRE(lt(0,m)); FAR(m,1); FAR(m,0);
  V2 lo{L*(c*hc+s*hs),L*(s*hc-c*hs)},hi{M*(c*hc-s*hs),M*(s*hc+c*hs)}; 
  V2 r=bisect(lo,hi); ENSURE(eq(r[0],c)&eq(r[1],s),"bisect is the unit vector halfway along the counter-clockwise sweep"); COVER("end");
  if(m!=1){ V2 q=bisect_not_antiparallel(lo,hi); ENSURE(eq(q[0],c)&eq(q[1],s),"bisect of vectors that are not antiparallel"); COVER("na"); }
}
VC_MAIN(bisect_same){ double k=R("k"),L=Rpos("L"),M=Rpos("M"),f=vc_bool("flip")?-1:1,c=f*(1-k*k)/(1+k*k),s=f*2*k/(1+k*k); if(k!=0||L!=1||M!=1) FAR(0,0); V2 r=bisect(V2{L*c,L*s},V2{M*c,M*s}); ENSURE(eq(r[0],-c)&eq(r[1],-s),"bisect of a full turn points backwards"); COVER("end"); }
VC_MAIN(lerp){ V2 u=rv2("ux","uy"),v=rv2("vx","vy"); double t=R("t"); double x=u[0]+t*(v[0]-u[0]),y=u[1]+t*(v[1]-u[1]); REQUIRE(ne(x,0)|ne(y,0)); V2 r=lerp(u,v,t); double L=R("L"); REQUIRE(lt(0,L)&eq(L*L,x*x+y*y)); ENSURE(eq(r[0]*L,x)&eq(r[1]*L,y),"lerp is the normalised interpolation"); COVER("end"); }
