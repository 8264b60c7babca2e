// SHAPE: scalar
// CONTRACT: polyline_split - algorithm/point_sequence/polyline_split.hpp (any number of points)
// CONTRACT: clip_polyline_front (both), clip_polyline_back, clip_polyline_ends, polyline_segment_lengths - algorithm/point_sequence/clip_polyline_ends.hpp (any number of points)
// CONTRACT: polyline_mid_point - algorithm/point_sequence/polyline_mid_point.hpp (any number of points)
// ASSUMES: results are ghost sequences that keep their abstract state (the points seen so far), std::vector<double> is a ghost vector of the lengths up to each point (std::lower_bound runs as it is); std::reverse enters by its contract; consecutive points are distinct
#include "geo.h"
#include <algorithm>
#include <iterator>
#include <vector>
using DC=direct_comparison_policy; using sz=std::size_t;
static double* gb; static long gn,gk; static bool grev; static double gl;
static long ix(long i){ return grev?gn-1-i:i; }
static double X(long i){ return vc_at(gb,ix(i),0,2); } static double Y(long i){ return vc_at(gb,ix(i),1,2); } static P2 V(long i){ return P2{X(i),Y(i)}; }
static double DR(long i){ return std::sqrt(sq(X(i)-X(i+1))+sq(Y(i)-Y(i+1))); }
// the length of the polyline up to point i
extern "C" double st_lr(double a,long i){ return a+DR(i); } static double LR(long i){ return vc_fold("lenr",(void*)st_lr,0,i); }
static B at(const P2& p,long k,double s){ double u=s-LR(k),d=DR(k); return eq(p[0]*d,X(k)*d+u*(X(k+1)-X(k)))&eq(p[1]*d,Y(k)*d+u*(Y(k+1)-Y(k))); }
static void split_at(){ gk=vc_index("k",gn); vc_assume((gk==0)|(LR(gk)<=gl)); vc_assume((gk==gn-1)|(gl<LR(gk+1))); }
static void clip_at(){ gk=vc_index("k",gn-1); vc_assume((gk==0)|(LR(gk)<gl)); vc_assume(gl<=LR(gk+1)); }
static void distinct(){ vc_assume((X(gk)!=X(gk+1))|(Y(gk)!=Y(gk+1))); }
#ifdef VC_NATIVE
// rounding decides which side of a point a position is on unless all lengths are integers
static void clear(){ bool ex=true; for(long i=0;i+1<gn;++i) ex=ex&&DR(i)==std::floor(DR(i)); if(!ex) for(long i=0;i<gn;++i) FAR(LR(i),gl); for(long i=0;i+1<gn;++i) vc_assume(DR(i)>1e-3); }
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
static PL take(){ SymSeq<PL> q("v",2); gb=q.b; gn=q.n; return q.get(); }
static void do_split(){ grev=false; PL p=take(); gl=R("pos"); clear(); split_at(); auto r=polyline_split(p,gl); const PL& a=std::get<0>(r); const PL& b=std::get<1>(r); bool cut=(gk<gn-1)&&LR(gk)<gl;
  ENSURE(bl((long)a.size()==gk+1+cut),"the first part holds exactly the points up to the position"); for(long i=0;i<=gk;++i) ENSURE(same(a[i],V(i)),"the first part holds exactly the points up to the position"); if(cut) ENSURE(at(a.back(),gk,gl),"the parts meet in the point at the position");
  ENSURE(same(b[0],a.back()),"the parts meet in the point at the position"); ENSURE(bl((long)b.size()==gn-gk),"the second part holds exactly the points after the position"); for(long i=gk+1;i<gn;++i) ENSURE(same(b[i-gk],V(i)),"the second part holds exactly the points after the position"); COVER("end"); }
static PL revd(const PL& p){ return PL(p.rbegin(),p.rend()); }
static void check(const PL& r){ bool cut=gl<LR(gk+1); long m=cut?gn-gk:(gk+1==gn-1?0:gn-gk-1); ENSURE(bl((long)r.size()==m),"exactly the points beyond the distance are kept"); if(!m) return; if(cut) ENSURE(at(r[0],gk,gl),"the result starts in the point at the distance"); for(long i=0;i<m-cut;++i) ENSURE(same(r[i+cut],V(gk+1+i)),"exactly the points beyond the distance are kept, in their order"); }
static void do_front(){ grev=false; PL p=take(); gl=Rnn("pos"); clear(); clip_at(); check(clip_polyline_front(p,gl,dcmp)); COVER("end"); }
static void do_front_it(){ grev=false; PL p=take(); gl=Rnn("pos"); clear(); clip_at(); check(clip_polyline_front<PL>(p.begin(),p.end(),gl,dcmp)); COVER("end"); }
static void do_front_all(){ grev=false; PL p=take(); gl=Rnn("pos"); clear(); vc_assume(LR(gn-1)<gl); ENSURE(bl(clip_polyline_front(p,gl,dcmp).empty()),"nothing is left of a polyline shorter than the distance"); ENSURE(bl(clip_polyline_back(p,gl,dcmp).empty()),"nothing is left of a polyline shorter than the distance"); COVER("end"); }
static void do_back(){ grev=true; PL p=take(); gl=Rnn("pos"); clear(); clip_at(); check(revd(clip_polyline_back(p,gl,dcmp))); COVER("end"); }
static void do_back_all(){ do_front_all(); }
static void do_ends(){ grev=false; PL p=take(); gl=Rnn("pos"); clear(); PL r=clip_polyline_ends(p,gl,dcmp),e=clip_polyline_back(clip_polyline_front(p,gl,dcmp),gl,dcmp); ENSURE(bl(r.size()==e.size()),"the ends are clipped one after the other"); for(sz i=0;i<r.size()&&i<e.size();++i) ENSURE(same(r[i],e[i]),"the ends are clipped one after the other"); COVER("end"); }
static void do_mid(){ grev=false; PL p=take(); gl=LR(gn-1)/2; clear(); clip_at(); ENSURE(at(polyline_mid_point(p),gk,gl),"the point reported is at half the length"); COVER("end"); }
static void do_mono(){ COVER("end"); }
#else
// lengths never decrease along the polyline (proved: mono)
static void mono(long i,long j){ vc_assume(!((0<=i)&(i<=j)&(j<gn))|(LR(i)<=LR(j))); }
// ---- ghost vector of the lengths up to each point
static long lc,glit;
struct LIt{ typedef std::random_access_iterator_tag iterator_category; typedef double value_type; typedef long difference_type; typedef const double* pointer; typedef double reference; long i;
  double operator*()const{ ENSURE(bl((0<=i)&(i<lc)),"only lengths recorded are read"); mono(i+1,gk); mono(gk+1,i); glit=i; return LR(i+1); } LIt& operator++(){ ++i; return *this; } LIt& operator--(){ --i; return *this; } LIt& operator+=(long k){ i+=k; return *this; } LIt& operator-=(long k){ i-=k; return *this; }
  bool operator==(const LIt& o)const{ return i==o.i; } bool operator!=(const LIt& o)const{ return i!=o.i; } long operator-(const LIt& o)const{ return i-o.i; } };
template<> class std::vector<double,std::allocator<double>>{ public: char c=0; vector(){ lc=0; } vector(const vector&)=default; vector(vector&&)=default; typedef LIt iterator; typedef LIt const_iterator; typedef double value_type;
  void push_back(double x){ ENSURE(eq(x,LR(lc+1)),"the lengths up to each point are recorded"); ++lc; } void reserve(sz){} sz size()const{ return lc; } bool empty()const{ return lc==0; } double back()const{ return LR(lc); } double operator[](sz i)const{ return *LIt{(long)i}; } LIt begin()const{ return LIt{0}; } LIt end()const{ return LIt{lc}; } };
// ---- ghost polylines: input and result of clipping
struct RIt{ typedef std::random_access_iterator_tag iterator_category; typedef P2 value_type; typedef long difference_type; typedef const P2* pointer; typedef const P2& reference; long i;
  const P2& operator*()const{ return *(const P2*)(gb+2*ix(i)); } RIt& operator++(){ ++i; return *this; } RIt& operator--(){ --i; return *this; } RIt& operator+=(long k){ i+=k; return *this; } RIt& operator-=(long k){ i-=k; return *this; }
  bool operator==(const RIt& o)const{ return i==o.i; } bool operator!=(const RIt& o)const{ return i!=o.i; } long operator-(const RIt& o)const{ return i-o.i; } };
struct GI{ long c; }; static bool greversed;
namespace std{ inline void reverse(GI a,GI b){ ENSURE(bl((a.c==0)&(b.c==1)),"the whole result is reversed"); greversed=!greversed; } }
static long on_,onext,gtag;
struct Pts{ long tag; Pts():tag(0){ on_=0; onext=gk+1; } explicit Pts(long t):tag(t){} Pts(const Pts&)=default; Pts(Pts&&)=default;
  void push_back(const P2& c){ if((on_==0)&(gl<LR(gk+1))){ LEMMA(bl(glit==gk),"the cut is in the segment the position falls in"); ENSURE(at(c,gk,gl),"the result starts in the point at the distance"); ++on_; return; } ENSURE(bl(onext<gn)&same(c,V(onext)),"exactly the points beyond the distance are kept, in their order"); ++onext; ++on_; }
  void emplace_back(const P2& c){ push_back(c); } sz size()const{ return on_; } bool empty()const{ return on_==0; } };
namespace geometrix{ template<> struct point_sequence_traits<Pts>{ typedef P2 point_type; static sz size(const Pts&){ return (sz)gn; } static const P2& get_point(const Pts&,sz i){ return *(const P2*)(gb+2*ix(i)); }
  static RIt rbegin(const Pts&){ return RIt{0}; } static RIt rend(const Pts&){ return RIt{gn}; } static GI begin(Pts&){ return GI{0}; } static GI end(Pts&){ return GI{1}; } static const P2& front(const Pts&){ return *(const P2*)(gb+2*ix(0)); } static const P2& back(const Pts&){ return *(const P2*)(gb+2*ix(gn-1)); } }; }
// ---- ghost polylines: the two parts of a split
static long npl,ac,bc; static bool gcut; static P2 glast;
template<> class geometrix::polyline<P2,std::allocator<P2>>{ public: long id; polyline():id(npl++){} polyline(std::initializer_list<P2> l):id(npl++){ ENSURE(bl((id==1)&(l.size()==1)),"the second part starts with one point"); start(*l.begin()); } polyline(const polyline&)=default; polyline(polyline&&)=default; polyline& operator=(const polyline&)=default;
  void start(const P2& c){ ENSURE(bl((ac==gk+1)&(gcut==((gk<gn-1)&(LR(gk)<gl)))),"the first part holds exactly the points up to the position"); ENSURE(same(c,glast),"the parts meet in the point at the position"); bc=gk+1; }
  void push_back(const P2& c){ if(id==0){ mono(ac+1,gk); mono(gk+1,ac); mono(gk+1,gn-1); if(ac<=gk){ ENSURE(same(c,V(ac)),"the first part holds exactly the points up to the position"); ++ac; } else { ENSURE(bl(!gcut&(gk<gn-1)&(LR(gk)<gl)),"the first part holds exactly the points up to the position"); ENSURE(at(c,ac-1,gl),"the parts meet in the point at the position"); gcut=true; } glast=c; }
    else { if(bc<0){ start(c); return; } ENSURE(bl(bc<gn)&same(c,V(bc)),"the second part holds exactly the points after the position"); ++bc; } }
  const P2& back()const{ return glast; } };
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
extern "C" bool v_at(double a,long i){ return a==LR(i); } extern "C" bool v_len(double a,long i){ return (a==LR(lc))&(i==lc)&(0<=lc)&(lc<gn); } extern "C" bool v_lenj(double a,long i){ return (a==LR(lc))&(i==lc+1)&(0<=lc)&(lc<gn); } extern "C" bool v_cut(){ return (lc<1)|(LR(lc)<=gl); }
extern "C" bool v_nn(long f){ return 0<=f; } extern "C" bool v_lb(long f,long n){ return (f+n<=lc)&((f==0)|(LR(f)<gl))&((f+n==lc)|(gl<=LR(f+n+1))); }
extern "C" bool v_push(long i){ return (i==onext)&(onext<=gn)&((on_>0)|(onext==gk+1)); } extern "C" bool v_on(long i){ return i==on_; } extern "C" bool v_push1(){ return on_==onext-gk-1+(gl<LR(gk+1)); } extern "C" bool v_nocut(){ return !((on_==0)&(gl<LR(gk+1))); }
extern "C" bool v_a(double a,long i){ return (a==LR(i))&(ac==i)&(0<=i)&(i<gn)&((i==0)|(LR(i)<=gl)); } extern "C" bool v_aj(double a,long i){ return v_a(a,i-1); } extern "C" bool v_a0(){ return !gcut&(ac<=gk+1)&(bc==-1); } extern "C" bool v_b(long i){ return (i==bc)&(gk<bc)&(bc<=gn); }
static Pts input(bool r,bool cut,bool spl=false){ vc_opt("loops","cut"); vc_opt("candidates","declared"); gn=vc_size("n",2); gb=vc_array("v",gn,2); grev=r; gk=0; lc=0; on_=0; onext=0; gtag=0; greversed=false;
  if(!spl){ vc_candidate("len",(void*)v_len,"di"); vc_candidate("lenj",(void*)v_lenj,"di"); if(cut) vc_candidate("cut",(void*)v_cut,""); vc_candidate("nn",(void*)v_nn,"i"); vc_candidate("lb",(void*)v_lb,"ii"); vc_candidate("on",(void*)v_on,"i"); vc_candidate("push",(void*)v_push,"i"); vc_candidate("push1",(void*)v_push1,""); } return Pts(0); }
static void lemmas(){ mono(0,gk); mono(gk+1,gn-1); mono(0,gn-1); distinct(); }
static void done(){ ENSURE(bl(((on_>0)&(onext==gn))|((on_==0)&(gk+1==gn-1)&(LR(gn-1)<=gl))),"exactly the points beyond the distance are kept"); }
static void do_front(){ Pts p=input(false,true); gl=Rnn("pos"); clip_at(); lemmas(); auto r=clip_polyline_front(p,gl,dcmp); done(); COVER("end"); }
static void do_front_it(){ Pts p=input(false,true); gl=Rnn("pos"); clip_at(); lemmas(); auto r=clip_polyline_front<Pts>(RIt{0},RIt{gn},gl,dcmp); done(); COVER("end"); }
static void do_front_all(){ Pts p=input(false,true); gl=Rnn("pos"); gk=gn-1; vc_assume(LR(gn-1)<gl); auto r=clip_polyline_front(p,gl,dcmp); ENSURE(bl(on_==0),"nothing is left of a polyline shorter than the distance"); COVER("end"); }
static void do_back_all(){ Pts p=input(true,true); gl=Rnn("pos"); gk=gn-1; vc_assume(LR(gn-1)<gl); auto r=clip_polyline_back(p,gl,dcmp); ENSURE(bl(on_==0),"nothing is left of a polyline shorter than the distance"); COVER("end"); }
static void do_back(){ Pts p=input(true,true); gl=Rnn("pos"); clip_at(); lemmas(); auto r=clip_polyline_back(p,gl,dcmp); done(); ENSURE(bl(greversed),"the points are in the order of the polyline"); COVER("end"); }
__attribute__((noinline)) static Pts c_front(const Pts& p,double l,const DC&){ ENSURE(bl(p.tag==5)&eq(l,gl),"the front is clipped by the distance"); return Pts(6); }
__attribute__((noinline)) static Pts c_back(const Pts& p,double l,const DC&){ ENSURE(bl(p.tag==6)&eq(l,gl),"then the back is clipped by the distance"); return Pts(7); }
static void do_ends(){ gl=Rnn("pos"); typedef Pts(*CF)(const Pts&,double,const DC&); vc_use_contract((void*)static_cast<CF>(&clip_polyline_front<Pts,double,DC>),(void*)&c_front); vc_use_contract((void*)static_cast<CF>(&clip_polyline_back<Pts,double,DC>),(void*)&c_back); Pts p(5); auto r=clip_polyline_ends(p,gl,dcmp); ENSURE(bl(r.tag==7),"the ends are clipped one after the other"); COVER("end"); }
static void do_mid(){ Pts p=input(false,false); gl=LR(gn-1)*.5; clip_at(); lemmas(); auto r=polyline_mid_point(p); LEMMA(bl(glit==gk),"the cut is in the segment the position falls in"); ENSURE(at(r,gk,gl),"the point reported is at half the length"); COVER("end"); }
static void do_split(){ Pts p=input(false,false,true); gl=R("pos"); split_at(); mono(gk,gn-1); npl=0; ac=0; bc=-1; gcut=false; glast=P2{0,0}; if(gk<gn-1) distinct(); vc_candidate("a",(void*)v_a,"di"); vc_candidate("aj",(void*)v_aj,"di"); vc_candidate("a0",(void*)v_a0,""); vc_candidate("b",(void*)v_b,"i");
  auto r=polyline_split(p,gl); ENSURE(bl((std::get<0>(r).id==0)&(std::get<1>(r).id==1)),"the parts are reported in their order"); ENSURE(bl(bc==gn),"the second part holds exactly the points after the position"); COVER("end"); }
static long gi,gm; static double gs; extern "C" bool v_mono(double a,long i){ return (a==LR(i))&(gi<=i)&(i<=gm)&(LR(gi)<=a); }
static void do_mono(){ vc_opt("loops","cut"); vc_opt("candidates","declared"); gn=vc_size("n",1); gb=vc_array("v",gn,2); grev=vc_bool("rev"); gi=vc_index("i",gn); gm=vc_index("j",gn); vc_assume(gi<=gm); vc_candidate("mono",(void*)v_mono,"di");
  double s=LR(gi); for(long i=gi;i<gm;++i) s+=DR(i); ENSURE(eq(s,LR(gm)),"the length is the sum"); ENSURE(le(LR(gi),s),"lengths never decrease along the polyline"); COVER("end"); }
#endif
// (each main takes a sequence of any length: vc_size)
VC_MAIN(mono){ do_mono(); /* vc_size */ }
VC_MAIN(split){ do_split(); /* vc_size */ }
VC_MAIN(clip_front){ do_front(); /* vc_size */ }
VC_MAIN(clip_front_range){ do_front_it(); /* vc_size */ }
VC_MAIN(clip_front_all){ do_front_all(); /* vc_size */ }
VC_MAIN(clip_back){ do_back(); /* vc_size */ }
VC_MAIN(clip_back_all){ do_back_all(); /* vc_size */ }
VC_MAIN(clip_ends){ do_ends(); }
VC_MAIN(mid_point){ do_mid(); /* vc_size */ }
