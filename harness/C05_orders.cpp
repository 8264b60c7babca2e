// CONTRACT: lexicographical_comparer, lexicographically_less_than, lexicographical_compare, reverse_lexicographical_point_compare, lexicographical_segment_compare, segment_interval_compare, dimension_compare, pair_first_compare, pair_second_compare, min_copy, max_copy - utility/utilities.hpp
#include "geo.h"
static B lex(const P2& a,const P2& b){ return lt(a[0],b[0])|(eq(a[0],b[0])&lt(a[1],b[1])); }
static B lex(const P3& a,const P3& b){ return lt(a[0],b[0])|(eq(a[0],b[0])&(lt(a[1],b[1])|(eq(a[1],b[1])&lt(a[2],b[2])))); }
typedef direct_comparison_policy D;
// strict weak order laws on three arbitrary elements
template<class C,class T> static void swo(const C& c,const T& x,const T& y,const T& z){
  bool xy=c(x,y),yx=c(y,x),yz=c(y,z),zy=c(z,y),xz=c(x,z),zx=c(z,x);
  ENSURE(bl(!c(x,x)),"irreflexive"); ENSURE(bl(!(xy&&yx)),"asymmetric"); ENSURE(bl(!(xy&&yz)||xz),"transitive"); ENSURE(bl(!(!xy&&!yx&&!yz&&!zy)||(!xz&&!zx)),"incomparability is transitive");
}
VC_MAIN(lex2){ P2 a=rp2("ax","ay"),b=rp2("bx","by"); lexicographical_comparer<D> c; lexicographical_comparer<D> k(dcmp); reverse_lexicographical_point_compare<D> r(dcmp);
  ENSURE(iff(lex(a,b),bl(c(a,b))),"lexicographic order in the plane"); ENSURE(bl(k(a,b)==c(a,b))&bl(lexicographically_less_than(a,b,dcmp)==c(a,b)),"lexicographic forms agree");
  ENSURE(iff(lex(P2{a[1],a[0]},P2{b[1],b[0]}),bl(r(a,b))),"reverse lexicographic order in the plane"); COVER("end"); }
VC_MAIN(lex3){ P3 a=rp3("ax","ay","az"),b=rp3("bx","by","bz"); lexicographical_comparer<D> c; reverse_lexicographical_point_compare<D> r(dcmp);
  ENSURE(iff(lex(a,b),bl(c(a,b))),"lexicographic order in space"); ENSURE(iff(lex(P3{a[2],a[1],a[0]},P3{b[2],b[1],b[0]}),bl(r(a,b))),"reverse lexicographic order in space"); COVER("end"); }
VC_MAIN(lex_scalars){ double a=R("a"),b=R("b"),c=R("c"),d=R("d"),e=R("e"),f=R("f");
  ENSURE(iff(lt(a,b)|(eq(a,b)&lt(c,d)),bl(lexicographical_compare(a,b,c,d))),"two level lexicographic compare"); ENSURE(iff(lt(a,b)|(eq(a,b)&(lt(c,d)|(eq(c,d)&lt(e,f)))),bl(lexicographical_compare(a,b,c,d,e,f))),"three level lexicographic compare"); COVER("end"); }
VC_MAIN(dim_compare){ P3 a=rp3("ax","ay","az"),b=rp3("bx","by","bz"); dimension_compare<0,D> d0(dcmp); dimension_compare<1,D> d1(dcmp); dimension_compare<2,D> d2(dcmp);
  ENSURE(iff(lex(a,b),bl(d0(a,b))),"order by the first coordinate"); ENSURE(iff(lt(a[1],b[1])|(eq(a[1],b[1])&lex(a,b)),bl(d1(a,b))),"order by the second coordinate, ties lexicographic"); ENSURE(iff(lt(a[2],b[2])|(eq(a[2],b[2])&lex(a,b)),bl(d2(a,b))),"order by the third coordinate, ties lexicographic"); COVER("end"); }
VC_MAIN(segment_lex){ S2 s{rp2("ax","ay"),rp2("bx","by")},t{rp2("cx","cy"),rp2("dx","dy")}; lexicographical_segment_compare<D> c(dcmp);
  P2 sl=s.get_start(),su=s.get_end(),tl=t.get_start(),tu=t.get_end();
  B sw=lex(sl,su),tw=lex(tl,tu); 
  double s0=sel(sw,sl[0],su[0]),s1=sel(sw,sl[1],su[1]),s2=sel(sw,su[0],sl[0]),s3=sel(sw,su[1],sl[1]),t0=sel(tw,tl[0],tu[0]),t1=sel(tw,tl[1],tu[1]),t2=sel(tw,tu[0],tl[0]),t3=sel(tw,tu[1],tl[1]);
  B want=lex(P2{s0,s1},P2{t0,t1})|(eq(s0,t0)&eq(s1,t1)&lex(P2{s2,s3},P2{t2,t3}));
  ENSURE(iff(want,bl(c(s,t))),"segments are ordered by lower end then upper end"); COVER("end"); }
VC_MAIN(segment_interval){ S2 s{rp2("ax","ay"),rp2("bx","by")},t{rp2("cx","cy"),rp2("dx","dy")}; segment_interval_compare<D> c(dcmp);
  P2 sl=s.get_start(),su=s.get_end(),tl=t.get_start(),tu=t.get_end(); B sw=lex(sl,su),tw=lex(tl,tu);
  P2 se{sel(sw,su[0],sl[0]),sel(sw,su[1],sl[1])},tb{sel(tw,tl[0],tu[0]),sel(tw,tl[1],tu[1])};
  ENSURE(iff(lex(se,tb),bl(c(s,t))),"intervals are ordered exactly when one ends before the other begins"); COVER("end"); }
VC_MAIN(pairs){ double a=R("a"),b=R("b"),c=R("c"),d=R("d"); std::pair<double,double> p(a,b),q(c,d); pair_first_compare<std::less<double>> f((std::less<double>())); pair_second_compare<std::less<double>> s((std::less<double>()));
  ENSURE(iff(lt(a,c),bl(f(p,q)))&iff(lt(b,d),bl(s(p,q))),"pair orders use their component"); ENSURE(eq(min_copy(a,b),mn(a,b))&eq(max_copy(a,b),mx(a,b)),"min and max copies");
  ENSURE(bl(geometrix::sign(a)==(a>=0?1:-1)),"sign"); double lo=R("lo"),w=Rnn("w"),r=geometrix::clamp(a,lo,lo+w); ENSURE(le(lo,r)&le(r,lo+w)&imp(le(lo,a)&le(a,lo+w),eq(r,a))&imp(lt(a,lo),eq(r,lo))&imp(lt(lo+w,a),eq(r,lo+w)),"clamp"); COVER("end"); }
VC_MAIN(swo_points){ P2 x=rp2("ax","ay"),y=rp2("bx","by"),z=rp2("cx","cy"); lexicographical_comparer<D> c; reverse_lexicographical_point_compare<D> r(dcmp); dimension_compare<1,D> d(dcmp); swo(c,x,y,z); swo(r,x,y,z); swo(d,x,y,z); COVER("end"); }
