// CONTRACT: direct_/absolute_tolerance_/relative_tolerance_/fraction_tolerance_/mapped_tolerance_comparison_policy: equals, less_than(_or_equal), greater_than(_or_equal) - numeric/number_comparison_policy.hpp
// CONTRACT: equals_within_absolute_tolerance, *_with_absolute_tolerance, *_with_fraction_tolerance, less_than/greater_than/equals functors - numeric/number_comparison_policy.hpp
// CONTRACT: absolute_value, equals_zero, equals_within_tolerance, safe_division - utility/floating_point_comparison.hpp
// ASSUMES: tolerances of the fraction policy lie in [1e-300, 1e300]
#include "geo.h"
// the five comparisons are exactly "u-v beyond / within a band |u-v| <= w" 
template<class C> static void band(const C& c,double u,double v,double w){
  double d=u-v; B eqv=le(d,w)&le(-w,d);
  ENSURE(iff(eqv,bl(c.equals(u,v))),"equal exactly inside the tolerance band"); ENSURE(iff(lt(d,-w),bl(c.less_than(u,v))),"less exactly below the tolerance band"); ENSURE(iff(lt(w,d),bl(c.greater_than(u,v))),"greater exactly above the tolerance band");
  ENSURE(iff(le(d,w),bl(c.less_than_or_equal(u,v))),"less-or-equal is not greater"); ENSURE(iff(le(-w,d),bl(c.greater_than_or_equal(u,v))),"greater-or-equal is not less");
}
template<class C> static void laws(const C& c,double u,double v){
  bool e=c.equals(u,v),l=c.less_than(u,v),g=c.greater_than(u,v);
  ENSURE(bl((e?1:0)+(l?1:0)+(g?1:0)==1),"exactly one of equal, less, greater"); ENSURE(bl(e==c.equals(v,u)),"equality is symmetric"); ENSURE(bl(l==c.greater_than(v,u)),"less and greater mirror each other");
  ENSURE(bl(c.less_than_or_equal(u,v)==(e||l)),"less-or-equal means less or equal"); ENSURE(bl(c.greater_than_or_equal(u,v)==(e||g)),"greater-or-equal means greater or equal"); ENSURE(bl(c.equals(u,u)),"a number equals itself");
}
VC_MAIN(direct){ double u=R("u"),v=R("v"); band(dcmp,u,v,0); laws(dcmp,u,v); COVER("end"); }
VC_MAIN(direct_int){ long u=vc_int("u",-1000000,1000000),v=vc_int("v",-1000000,1000000); ENSURE(bl(dcmp.equals(u,v)==(u==v)&&dcmp.less_than(u,v)==(u<v)&&dcmp.greater_than(u,v)==(u>v)&&dcmp.less_than_or_equal(u,v)==(u<=v)&&dcmp.greater_than_or_equal(u,v)==(u>=v)),"direct comparison of integers"); COVER("end"); }
VC_MAIN(absolute){ double u=R("u"),v=R("v"),e=Rnn("e"); absolute_tolerance_comparison_policy<double> c(e); band(c,u,v,e); laws(c,u,v);
  ENSURE(bl(equals_within_absolute_tolerance(u,v,e)==c.equals(u,v))&bl(less_than_with_absolute_tolerance(u,v,e)==c.less_than(u,v))&bl(greater_than_with_absolute_tolerance(u,v,e)==c.greater_than(u,v))&bl(less_than_or_equal_with_absolute_tolerance(u,v,e)==c.less_than_or_equal(u,v))&bl(greater_than_or_equal_with_absolute_tolerance(u,v,e)==c.greater_than_or_equal(u,v)),"free functions agree with the absolute policy"); COVER("end"); }
VC_MAIN(relative){ double u=R("u"),v=R("v"),e=Rnn("e"); relative_tolerance_comparison_policy<double> c(e); double w=e*(ab(u)+ab(v)+1); band(c,u,v,w); laws(c,u,v); COVER("end"); }
// fraction policy: band is e*min(|u|,|v|), or a when one side is zero
VC_MAIN(fraction){ double u=R("u"),v=R("v"),e=Rpos("e"),a=Rpos("a"); REQUIRE(le(1e-300,e)&le(e,1e300)); fraction_tolerance_comparison_policy<double> c(e,a);
  double w= (u==0)|(v==0)? a : e*mn(ab(u),ab(v)); band(c,u,v,w); laws(c,u,v); COVER("end"); }
VC_MAIN(fraction_free){ double u=R("u"),v=R("v"),e=Rpos("e"); REQUIRE(le(1e-300,e)&le(e,1e300)); fraction_tolerance_comparison_policy<double> c(e);
  ENSURE(bl(equals_within_fraction_tolerance(u,v,e)==c.equals(u,v)),"fraction equality function agrees with the policy"); ENSURE(bl(less_than_with_fraction_tolerance(u,v,e)==c.less_than(u,v)),"fraction less-than function agrees with the policy"); ENSURE(bl(greater_than_with_fraction_tolerance(u,v,e)==c.greater_than(u,v)),"fraction greater-than function agrees with the policy");
  ENSURE(bl(less_than_or_equal_with_fraction_tolerance(u,v,e)==c.less_than_or_equal(u,v)),"fraction less-or-equal function agrees with the policy"); ENSURE(bl(greater_than_or_equal_with_fraction_tolerance(u,v,e)==c.greater_than_or_equal(u,v)),"fraction greater-or-equal function agrees with the policy"); COVER("end"); }
VC_MAIN(mapped){ double u=R("u"),v=R("v"),e=Rnn("e"),f=Rnn("f"); long i=vc_int("i",-1000,1000),j=vc_int("j",-1000,1000);
  auto c=make_mapped_tolerance_comparison_policy(absolute_tolerance_comparison_policy<double>(e),boost::fusion::pair<float,absolute_tolerance_comparison_policy<double>>(absolute_tolerance_comparison_policy<double>(f)));
  band(c,u,v,e); laws(c,u,v); ENSURE(bl(c.equals(i,j)==absolute_tolerance_comparison_policy<double>(e).equals((long)i,(long)j)),"unmapped types use the default policy"); COVER("end"); }
VC_MAIN(mapped_key){ double u=R("u"),v=R("v"),e=Rnn("e"),f=Rnn("f");
  auto c=make_mapped_tolerance_comparison_policy(absolute_tolerance_comparison_policy<double>(e),boost::fusion::pair<double,absolute_tolerance_comparison_policy<double>>(absolute_tolerance_comparison_policy<double>(f)));
  band(c,u,v,f); COVER("end"); }
VC_MAIN(functors){ double u=R("u"),v=R("v"),e=Rnn("e"); typedef absolute_tolerance_comparison_policy<double> C; C c(e);
  ENSURE(bl(geometrix::less_than<C>(c)(u,v)==c.less_than(u,v))&bl(geometrix::greater_than<C>(c)(u,v)==c.greater_than(u,v))&bl(geometrix::less_than_or_equal<C>(c)(u,v)==c.less_than_or_equal(u,v))&bl(geometrix::greater_than_or_equal<C>(c)(u,v)==c.greater_than_or_equal(u,v))&bl(geometrix::equals<C>(c)(u,v)==c.equals(u,v)),"comparison functors forward to their policy"); COVER("end"); }
VC_MAIN(sequences){ P3 a=rp3("ax","ay","az"),b=rp3("bx","by","bz"); P2 c=rp2("cx","cy"),d=rp2("dx","dy"); double e=Rnn("e"); absolute_tolerance_comparison_policy<double> t(e);
  ENSURE(iff(le(ab(a[0]-b[0]),e)&le(ab(a[1]-b[1]),e)&le(ab(a[2]-b[2]),e),bl(numeric_sequence_equals(a,b,t))),"sequences in space are equal exactly when every coordinate is"); ENSURE(bl(numeric_sequence_equals_3d(a,b,t)==numeric_sequence_equals(a,b,t)),"3d form agrees");
  ENSURE(iff(le(ab(c[0]-d[0]),e)&le(ab(c[1]-d[1]),e),bl(numeric_sequence_equals(c,d,t))),"plane sequences are equal exactly when every coordinate is"); ENSURE(bl(numeric_sequence_equals_2d(c,d,t)==numeric_sequence_equals(c,d,t)),"2d form agrees"); COVER("end"); }
