// CONTRACT: grid_traits (all members) - algorithm/grid_traits.hpp
// CONTRACT: cohen_sutherland_line_clip - algorithm/cohen_sutherland_line_clipping.hpp
// ASSUMES: grid extents are less than 2^31 cells per side
#include "geo.h"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
using G=grid_traits<double>;
VC_MAIN(index){
  double x0=R("x0"),y0=R("y0"),c=Rpos("c"),w=Rpos("w"),h=Rpos("h"),x=Runit("x")*w,y=Runit("y")*h; REQUIRE(lt(w,2e9)&lt(h,2e9)); FAR(w,std::floor(w)); FAR(w,std::floor(w)+1); FAR(h,std::floor(h)); FAR(h,std::floor(h)+1); FAR(x,std::floor(x)); FAR(x,std::floor(x)+1); FAR(y,std::floor(y)); FAR(y,std::floor(y)+1);
  G g(x0,x0+w*c,y0,y0+h*c,c); G g2(std::make_tuple(x0,x0+w*c,y0,y0+h*c),c);
  double W=g.get_width(),H=g.get_height(); ENSURE(lt(w,W)&le(W-1,w)&lt(h,H)&le(H-1,h),"the grid is just wide and high enough"); ENSURE(bl(g2.get_width()==g.get_width()&&g2.get_height()==g.get_height()),"both constructors agree");
  P2 p{x0+x*c,y0+y*c}; ENSURE(bl(g.is_contained(p)),"points inside the bounds are contained"); double i=g.get_x_index(p[0]),j=g.get_y_index(p[1]);
  ENSURE(le(i,x)&lt(x,i+1),"the column of a coordinate covers it"); ENSURE(le(j,y)&lt(y,j+1),"the row of a coordinate covers it"); ENSURE(le(i+1,W)&le(j+1,H),"indices are inside the grid"); 
  ENSURE(eq(g.get_scaled_grid_coordinate_x(p[0]),x)&eq(g.get_scaled_grid_coordinate_y(p[1]),y),"scaled coordinates count cells"); 
  ENSURE(eq(g.get_min_x(),x0)&eq(g.get_min_y(),y0)&eq(g.get_max_x(),x0+w*c)&eq(g.get_max_y(),y0+h*c)&eq(g.get_cell_size(),c)&same(g.get_origin(),P2{x0,y0}),"bounds are those given"); COVER("end");
}
VC_MAIN(contained){ double x0=R("x0"),y0=R("y0"),c=Rpos("c"),w=Rpos("w"),h=Rpos("h"); REQUIRE(lt(w,2e9*c)&lt(h,2e9*c)); P2 p=rp2("px","py"); G g(x0,x0+w,y0,y0+h,c); ENSURE(iff(le(x0,p[0])&le(p[0],x0+w)&le(y0,p[1])&le(p[1],y0+h),bl(g.is_contained(p))),"contained exactly when inside the bounds"); COVER("end"); }
VC_MAIN(cells){
  double x0=R("x0"),y0=R("y0"),c=Rpos("c"),w=Rpos("w"),h=Rpos("h"); REQUIRE(lt(w,2e9)&lt(h,2e9)); G g(x0,x0+w*c,y0,y0+h*c,c); long i=vc_int("i",0,1000000),j=vc_int("j",0,1000000); double X=x0+i*c,Y=y0+j*c,X1=x0+(i+1)*c,Y1=y0+(j+1)*c;
  auto k0=g.get_cell_corner0(i,j),k1=g.get_cell_corner1(i,j),k2=g.get_cell_corner2(i,j),k3=g.get_cell_corner3(i,j); ENSURE(same(k0,P2{X,Y})&same(k1,P2{X1,Y})&same(k2,P2{X1,Y1})&same(k3,P2{X,Y1}),"corners of a cell, counter-clockwise from the lower left");
  ENSURE(same(g.get_cell_centroid(i,j),P2{(X+X1)/2,(Y+Y1)/2}),"centroid of a cell"); auto b=g.get_cell_aabb(i,j); ENSURE(same(b.get_lower_bound(),k0)&same(b.get_upper_bound(),k2),"box of a cell"); auto q=g.get_cell_polygon(i,j); ENSURE(bl(q.size()==4)&same(q[0],k0)&same(q[1],k1)&same(q[2],k2)&same(q[3],k3),"polygon of a cell"); COVER("end");
}
VC_MAIN(clip){ vc_opt("div","atom");
  double xl=R("xl"),yl=R("yl"),w=Rnn("w"),h=Rnn("h"),ax=R("ax"),ay=R("ay"),dx=R("dx"),dy=R("dy"),s=Runit("s"); double x0=ax,y0=ay,x1=ax+dx,y1=ay+dy; for(double e:{0.,1.}){ FAR(ax+e*dx,xl); FAR(ax+e*dx,xl+w); FAR(ay+e*dy,yl); FAR(ay+e*dy,yl+h); } for(int k=0;k<4;++k) FAR(cr2(xl+(k&1)*w-ax,yl+(k>>1)*h-ay,dx,dy),0); FAR(dx,0); FAR(dy,0);
  bool got=cohen_sutherland_line_clip(x0,y0,x1,y1,xl,xl+w,yl,yl+h,dcmp); double px=ax+s*dx,py=ay+s*dy; B in=le(xl,px)&le(px,xl+w)&le(yl,py)&le(py,yl+h);
  ENSURE(imp(in,bl(got)),"a segment with a point in the window is accepted");
  if(got){ ENSURE(le(xl,x0)&le(x0,xl+w)&le(yl,y0)&le(y0,yl+h)&le(xl,x1)&le(x1,xl+w)&le(yl,y1)&le(y1,yl+h),"both clipped ends are in the window"); ENSURE(eq((x0-ax)*dy,(y0-ay)*dx)&eq((x1-ax)*dy,(y1-ay)*dx),"both clipped ends are on the line of the segment"); 
    double f=(x0-ax)*dx+(y0-ay)*dy,g=(x1-ax)*dx+(y1-ay)*dy,D=dx*dx+dy*dy; ENSURE(le(0,f)&le(f,g)&le(g,D),"clipped ends keep their order on the segment"); ENSURE(imp(in,le(f,s*D)&le(s*D,g)),"nothing inside the window is clipped"); }
  COVER("end");
}
