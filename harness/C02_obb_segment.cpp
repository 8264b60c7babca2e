// CONTRACT: geometrix::segment_obb_distance(_sqrd) - algorithm/distance/segment_obb_distance.hpp (segment_segment_distance_sqrd enters by its contract: a symmetric function of the two segments)
#include "geo.h"
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
using OBB=oriented_bounding_box<P2,V2>; typedef double (*SSD)(const S2&,const S2&,const direct_comparison_policy&);
#ifndef VC_NATIVE
static double F(const P2& a,const P2& b,const P2& c,const P2& d){ return vc_fn("ssd",8,a[0],a[1],b[0],b[1],c[0],c[1],d[0],d[1]); }
static double sym(const P2& a,const P2& b,const P2& c,const P2& d){ return F(a,b,c,d)+F(b,a,c,d)+F(a,b,d,c)+F(b,a,d,c)+F(c,d,a,b)+F(d,c,a,b)+F(c,d,b,a)+F(d,c,b,a); }
#else
static double sym(const P2& a,const P2& b,const P2& c,const P2& d){ return segment_segment_distance_sqrd(S2{a,b},S2{c,d},dcmp); }
#endif
__attribute__((noinline)) static double ssd_contract(const S2& x,const S2& y,const direct_comparison_policy&){ double r=sym(x.get_start(),x.get_end(),y.get_start(),y.get_end()); vc_assume(r>=0); return r; }
VC_MAIN(segment_obb){
  vc_use_contract((void*)static_cast<SSD>(&segment_segment_distance_sqrd<S2,S2,direct_comparison_policy>),(void*)&ssd_contract);
  P2 o=rp2("ox","oy"); double c=R("c"),s=R("s"),a=Rpos("a"),b=Rpos("b"); P2 p=rp2("px","py"),q=rp2("qx","qy");
  OBB box(o,V2{c,s},V2{-s,c},a,b);
  P2 k[4]={P2{o[0]-a*c+b*s,o[1]-a*s-b*c},P2{o[0]+a*c+b*s,o[1]+a*s-b*c},P2{o[0]+a*c-b*s,o[1]+a*s+b*c},P2{o[0]-a*c-b*s,o[1]-a*s+b*c}};
  double want=mn(mn(sym(p,q,k[0],k[1]),sym(p,q,k[1],k[2])),mn(sym(p,q,k[2],k[3]),sym(p,q,k[3],k[0])));
  ENSURE(eq(segment_obb_distance_sqrd(S2{p,q},box,dcmp),want),"distance of a segment to an oriented box outline is the least over its four sides");
  double d=segment_obb_distance(S2{p,q},box,dcmp); ENSURE(le(0,d)&eq(d*d,want),"distance to an oriented box outline is the root"); COVER("end");
}
