// CONTRACT: matrix expression operators +, -, unary -, *, & (Kronecker), scalar multiples; trans, det, inv; matrix_product_element, determinant, adjugate_at_index, inverse_at_index - algebra/functions/*.hpp, arithmetic/matrix_arithmetic.hpp, arithmetic/detail/determinant.hpp
// CONTRACT: trace, row, column, matrix_minor, identity_matrix access - arithmetic/matrix/trace.hpp, tensor/matrix_row.hpp, tensor/matrix_column.hpp, tensor/matrix_minor_adaptor.hpp, tensor/identity_matrix.hpp
// CONTRACT: lup_decomposition, lup_solve - algebra/lup_decomposition.hpp (and its preprocessed form)
#include "geo.h"
#include <geometrix/algebra/expression.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
template<std::size_t N,std::size_t M> static void fill(matrix<double,N,M>& m,const char* p){ static char nm[8]; for(std::size_t i=0;i<N;++i) for(std::size_t j=0;j<M;++j) m[i][j]=R(p); }
typedef matrix<double,2,2> M2; typedef matrix<double,3,3> M3; typedef matrix<double,4,4> M4; typedef matrix<double,2,3> M23; typedef matrix<double,3,2> M32;
static double d2(const M2& m){ return m[0][0]*m[1][1]-m[0][1]*m[1][0]; }
static double d3(double a,double b,double c,double d,double e,double f,double g,double h,double i){ return a*e*i+b*f*g+c*d*h-c*e*g-b*d*i-a*f*h; }
static double d3(const M3& m){ return d3(m[0][0],m[0][1],m[0][2],m[1][0],m[1][1],m[1][2],m[2][0],m[2][1],m[2][2]); }
VC_MAIN(linear){
  M23 a,b,r; fill(a,"a"); fill(b,"b"); M2 k,l,q; fill(k,"k"); fill(l,"l"); long i=vc_choice("i",0,1),j=vc_choice("j",0,2); 
  r<<=a+b; ENSURE(eq(r[i][j],a[i][j]+b[i][j]),"matrix sum"); r<<=a-b; ENSURE(eq(r[i][j],a[i][j]-b[i][j]),"matrix difference"); r<<=-a; ENSURE(eq(r[i][j],-a[i][j]),"matrix negation");
  double s=R("s"); r<<=s*a; ENSURE(eq(r[i][j],s*a[i][j]),"scalar multiple"); 
  M32 t; t<<=trans(a); ENSURE(eq(t[j][i],a[i][j]),"transpose"); r<<=trans(trans(a)+trans(b)); ENSURE(eq(r[i][j],a[i][j]+b[i][j]),"transpose of a transpose"); COVER("end");
}
VC_MAIN(product){
  M23 a; M32 b; M2 r,c; M3 w; fill(a,"a"); fill(b,"b"); fill(c,"c"); long i=vc_choice("i",0,1),j=vc_choice("j",0,1);
  r<<=a*b; ENSURE(eq(r[i][j],a[i][0]*b[0][j]+a[i][1]*b[1][j]+a[i][2]*b[2][j]),"product of rectangular matrices"); r<<=(a*b)*c; double p0=a[i][0]*b[0][0]+a[i][1]*b[1][0]+a[i][2]*b[2][0],p1=a[i][0]*b[0][1]+a[i][1]*b[1][1]+a[i][2]*b[2][1];
  ENSURE(eq(r[i][j],p0*c[0][j]+p1*c[1][j]),"product of a product"); long k=vc_choice("k",0,2),l=vc_choice("l",0,2); w<<=b*a; ENSURE(eq(w[k][l],b[k][0]*a[0][l]+b[k][1]*a[1][l]),"product the other way round"); w<<=b*c*a; double z=0; for(int x=0;x<2;++x) for(int y=0;y<2;++y) z+=b[k][x]*c[x][y]*a[y][l]; ENSURE(eq(w[k][l],z),"triple product"); COVER("end");
}
VC_MAIN(vectors){
  M3 m; fill(m,"m"); V3 v=rv3("vx","vy","vz"),r; long i=vc_choice("i",0,2); r<<=m*v; ENSURE(eq(r[i],m[i][0]*v[0]+m[i][1]*v[1]+m[i][2]*v[2]),"matrix times vector"); 
  ENSURE(eq(get<0>(row<M3,1>(m)),m[1][0])&eq(get<2>(row<M3,1>(m)),m[1][2])&eq(get<0>(column<M3,1>(m)),m[0][1])&eq(get<2>(column<M3,1>(m)),m[2][1]),"row and column views"); COVER("end");
}
VC_MAIN(kronecker){ M2 a,b; M4 r; fill(a,"a"); fill(b,"b"); r<<=a&b; long i=vc_choice("i",0,3),j=vc_choice("j",0,3); ENSURE(eq(r[i][j],a[i/2][j/2]*b[i%2][j%2]),"tensor product of matrices"); COVER("end"); }
VC_MAIN(determinants){
  M2 a; M3 b; fill(a,"a"); fill(b,"b"); double d; ENSURE(eq(determinant(a),d2(a))&eq(determinant(b),d3(b)),"determinants of order two and three"); d<<=det(b); ENSURE(eq(d,d3(b)),"determinant expression");
  M2 c; fill(c,"c"); d<<=det(a*c); ENSURE(eq(d,d2(a)*d2(c)),"determinant of a product"); ENSURE(eq(trace(a),a[0][0]+a[1][1])&eq(trace(b),b[0][0]+b[1][1]+b[2][2]),"trace"); matrix<double,1,1> o; fill(o,"o"); ENSURE(eq(determinant(o),o[0][0]),"determinant of order one"); COVER("end");
}
VC_MAIN(determinant4){
  M4 m; fill(m,"m"); double w=0; for(int j=0;j<4;++j){ int k[3],n=0; for(int c=0;c<4;++c) if(c!=j) k[n++]=c; double x=m[0][j]*d3(m[1][k[0]],m[1][k[1]],m[1][k[2]],m[2][k[0]],m[2][k[1]],m[2][k[2]],m[3][k[0]],m[3][k[1]],m[3][k[2]]); w+= j%2?-x:x; }
  ENSURE(eq(determinant(m),w),"determinant of order four"); ENSURE(eq(trace(m),m[0][0]+m[1][1]+m[2][2]+m[3][3]),"trace of order four"); COVER("end");
}
VC_MAIN(inverse2){ M2 a,r,p; fill(a,"a"); REQUIRE(ne(d2(a),0)); FAR(d2(a),0); r<<=inv(a); p<<=a*r; long i=vc_choice("i",0,1),j=vc_choice("j",0,1); ENSURE(eq(p[i][j],i==j),"inverse of order two"); p<<=r*a; ENSURE(eq(p[i][j],i==j),"left inverse of order two"); p<<=a*inv(a); ENSURE(eq(p[i][j],i==j),"inverse expression"); COVER("end"); }
VC_MAIN(inverse3){ M3 a,r; fill(a,"a"); REQUIRE(ne(d3(a),0)); FAR(d3(a),0); r<<=inv(a); long i=vc_choice("i",0,2),j=vc_choice("j",0,2); double s=a[i][0]*r[0][j]+a[i][1]*r[1][j]+a[i][2]*r[2][j]; ENSURE(eq(s,i==j),"inverse of order three"); COVER("end"); }
VC_MAIN(singular){ M2 a,r; fill(a,"a"); REQUIRE(eq(d2(a),0)); bool threw=false; try{ r<<=inv(a); } catch(const std::logic_error&){ threw=true; } ENSURE(bl(threw),"inverting a singular matrix is refused"); COVER("end"); }
template<std::size_t N> static void lup(const char* nm){
  matrix<double,N,N> a,lu; fill(a,"a"); lu=a; boost::array<std::size_t,N> pi; boost::array<double,N> b; for(std::size_t i=0;i<N;++i) b[i]=R("b");
  bool threw=false; try{ lup_decomposition(lu,pi); } catch(const std::logic_error&){ threw=true; }
  if(threw){ COVER("singular"); return; }
  for(std::size_t i=0;i+1<N;++i) FAR(lu[i][i],0);
  // P*A = L*U
  B ok=bl(true); for(std::size_t i=0;i<N;++i) for(std::size_t j=0;j<N;++j){ double s=0; for(std::size_t k=0;k<=(i<j?i:j);++k) s+= (k==i?1:lu[i][k])*lu[k][j]; ok=ok&eq(s,a[pi[i]][j]); }
  ENSURE(ok,"the factors multiply back to the row-permuted matrix");
  for(std::size_t i=0;i<N;++i) for(std::size_t j=0;j<i;++j) ENSURE(le(lu[i][j],1)&le(-1,lu[i][j]),"pivoting bounds the multipliers");
  for(std::size_t i=0;i<N;++i) for(std::size_t j=0;j<i;++j) ENSURE(bl(pi[i]!=pi[j]&&pi[i]<N),"the row permutation is a permutation");
  REQUIRE(ne(lu[N-1][N-1],0)); for(std::size_t i=0;i<N;++i) FAR(lu[i][i],0); auto x=lup_solve(lu,pi,b);
  for(std::size_t i=0;i<N;++i){ double s=0; for(std::size_t j=0;j<N;++j) s+=a[i][j]*x[j]; ENSURE(eq(s,b[i]),"the solution satisfies every equation"); } COVER("end");
}
VC_MAIN(lup2){ lup<2>("a"); }
VC_MAIN(lup3){ lup<3>("a"); }
// order four: every Hessenberg matrix for the factorisation, every factor pair and a permutation for the solver
VC_MAIN(b_lup4){
  M4 a,lu; fill(a,"a"); for(int i=0;i<4;++i) for(int j=0;j+1<i;++j) a[i][j]=0; lu=a; boost::array<std::size_t,4> pi; bool threw=false; try{ lup_decomposition(lu,pi); } catch(const std::logic_error&){ threw=true; } if(threw) return;
  B ok=bl(true); for(int i=0;i<4;++i) for(int j=0;j<4;++j){ double s=0; for(int k=0;k<=(i<j?i:j);++k) s+= (k==i?1:lu[i][k])*lu[k][j]; ok=ok&eq(s,a[pi[i]][j]); } for(int k=0;k<3;++k) FAR(lu[k][k],0);
  ENSURE(ok,"the factors of order four multiply back to the row-permuted matrix"); COVER("end");
}
VC_MAIN(lup_solve4){
  M4 l; fill(l,"l"); for(int i=0;i<4;++i){ REQUIRE(ne(l[i][i],0)); FAR(l[i][i],0); } boost::array<std::size_t,4> pi; long p=vc_choice("p",0,3),q=vc_choice("q",0,1); for(int i=0;i<4;++i) pi[i]=(i+p)%4; if(q) std::swap(pi[0],pi[2]); boost::array<double,4> b; for(int i=0;i<4;++i) b[i]=R("b");
  auto x=lup_solve(l,pi,b); double u[4]; for(int i=0;i<4;++i){ u[i]=0; for(int j=i;j<4;++j) u[i]+=l[i][j]*x[j]; }
  for(int i=0;i<4;++i){ double s=u[i]; for(int k=0;k<i;++k) s+=l[i][k]*u[k]; ENSURE(eq(s,b[pi[i]]),"forward and back substitution of order four"); } COVER("end");
}
