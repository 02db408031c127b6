// State vectors and density operators obey the algebra of tensors
#include "qh.h"
#include "VectorFromMatrixSliceIterator.h"
using namespace qh;
using namespace quantumdata;
namespace {
template<int R> V flat(const StateVector<R>& psi) {return vec<R>(psi.getArray());}
template<int R> M flat(const DensityOperator<R>& rho) {return mat<R>(rho.getArray());}
V kronv(const V& x, const V& y) {V r; for (C a : x) for (C b : y) r.push_back(a*b); return r;}
}
SR_SCENARIO(tensor_product) {
  auto d1=dims<1>({2}), d2=dims<1>({3}); auto d22=dims<2>({3,2});
  V a=vsym(2,"a"), b=vsym(3,"b"), c=vsym(6,"c");
  auto A=sv<1>(a,d1); auto B=sv<1>(b,d2); auto Cc=sv<2>(c,d22);
  {auto p=A*B; eq(flat<2>(p),kronv(a,b),"1x1"); sr_check(p.getDimensions()(0)==2&&p.getDimensions()(1)==3&&p.getTotalDimension()==6,"dimensions of a product");}
  {auto p=A*Cc; eq(flat<3>(p),kronv(a,c),"1x2"); sr_check(p.getDimensions()(0)==2&&p.getDimensions()(1)==3&&p.getDimensions()(2)==2,"dimensions of a product");}
  {auto p=Cc*A; eq(flat<3>(p),kronv(c,a),"2x1");}
  {auto p=A*B*A; eq(flat<3>(p),kronv(kronv(a,b),a),"1x1x1");}
  eq(flat<1>(A),a,"operands intact"); eq(flat<1>(B),b,"operands intact");
  sr_eq((A*B).norm()*(A*B).norm(),norm2(a)*norm2(b),"norm of a product");
}
SR_SCENARIO(dyads) {
  auto d=dims<2>({2,2}); V a=vsym(4,"a"), b=vsym(4,"b"); auto A=sv<2>(a,d), B=sv<2>(b,d);
  {auto rho=quantumdata::dyad(A,B); eq(flat<2>(rho),qh::dyad(a,b),"dyad");}
  {DensityOperator<2> rho(A); eq(flat<2>(rho),qh::dyad(a,a),"pure density operator"); sr_eq(rho.norm(),norm2(a),"trace of a pure density operator");}
  {DensityOperator<2> rho(d); rho=A; eq(flat<2>(rho),qh::dyad(a,a),"assignment from a state vector");}
  {M m=hsym(4,"m"); auto rho=dop<2>(m,d); double w=sr_var("w"); A.addTo(rho,w); eq(flat<2>(rho),m+C(w)*qh::dyad(a,a),"weighted addition"); B.addTo(rho); eq(flat<2>(rho),m+C(w)*qh::dyad(a,a)+qh::dyad(b,b),"addition");}
  {C s=0; for (int i=0;i<4;++i) s+=std::conj(a[i])*b[i]; sr_eq(braket(A,B),s,"scalar product");}
  eq(flat<2>(A),a,"operands intact");
}
SR_SCENARIO(norms) {
  auto d=dims<2>({2,2}); V a=vsym(4,"a"); sr_assume_lt(0,norm2(a)); auto A=sv<2>(a,d);
  double n=A.norm(); sr_eq(n*n,norm2(a),"norm"); sr_le(0,n,"norm is nonnegative");
  double r=A.renorm(); sr_eq(r,n,"renorm returns the norm"); V x=flat<2>(A); for (int i=0;i<4;++i) sr_eq(x[i]*r,a[i],"renorm only rescales"); sr_eq(A.norm(),1,"unit norm after renorm");
}
SR_SCENARIO(traces) {
  auto d=dims<2>({2,2}); M m=hsym(4,"m"); sr_assume_ne(tr(m).real(),0); auto R=dop<2>(m,d);
  sr_eq(R.norm(),tr(m).real(),"trace"); double f=R.frobeniusNorm(), s=0; for (C c : m.a) s+=std::norm(c); sr_eq(f*f,s,"Frobenius norm"); sr_eq(purity(R),s,"purity");
  double r=R.renorm(); sr_eq(r,tr(m).real(),"renorm returns the trace"); M x=flat<2>(R); for (int i=0;i<16;++i) sr_eq(x.a[i]*r,m.a[i],"renorm only rescales"); sr_eq(R.norm(),1,"unit trace after renorm");
}
SR_SCENARIO(vector_space) {
  auto d=dims<2>({2,2}); V a=vsym(4,"a"), b=vsym(4,"b"); auto A=sv<2>(a,d), B=sv<2>(b,d); C c=sr_cvar("c"); double w=sr_var("w"); sr_assume_ne(w,0);
  V s(4), df(4), sc(4), sw(4), ng(4); for (int i=0;i<4;++i) {s[i]=a[i]+b[i]; df[i]=a[i]-b[i]; sc[i]=c*a[i]; sw[i]=a[i]*w; ng[i]=-a[i];}
  eq(flat<2>(A+B),s,"sum"); eq(flat<2>(A-B),df,"difference"); eq(flat<2>(A*c),sc,"complex multiple"); eq(flat<2>(c*A),sc,"complex multiple"); eq(flat<2>(A*w),sw,"real multiple"); eq(flat<2>(w*A),sw,"real multiple");
  eq(flat<2>(-A),ng,"negative"); eq(flat<2>(+A),a,"positive");
  {auto q=A/w; V x=flat<2>(q); for (int i=0;i<4;++i) sr_eq(x[i]*w,a[i],"quotient");}
  eq(flat<2>(A),a,"operands intact"); eq(flat<2>(B),b,"operands intact");
  M m=msym(4,"m"), n=msym(4,"n"); auto R=dop<2>(m,d), S=dop<2>(n,d);
  eq(flat<2>(R+S),m+n,"sum"); eq(flat<2>(R-S),m-n,"difference"); eq(flat<2>(c*R),c*m,"complex multiple"); eq(flat<2>(R*w),C(w)*m,"real multiple"); eq(flat<2>(-R),C(-1)*m,"negative");
  eq(flat<2>(R),m,"operands intact");
}
// copies are deep, references are views
SR_SCENARIO(copies) {
  auto d=dims<2>({2,2}); V a=vsym(4,"a"), b=vsym(4,"b"); auto A=sv<2>(a,d);
  {StateVector<2> B(A); B.getArray()(0,1)=7.; eq(flat<2>(A),a,"copy construction is deep");}
  {StateVector<2> B(d); B=A; eq(flat<2>(B),a,"copy assignment"); B.getArray()(0,1)=7.; eq(flat<2>(A),a,"copy assignment is deep");}
  {StateVector<2> B(sv<2>(b,d)); B=StateVector<2>(A); eq(flat<2>(B),a,"move assignment");}
  {StateVector<2> B(A.getArray(),byReference); B.getArray()(0,1)=7.; V x(a); x[1]=7.; eq(flat<2>(A),x,"reference"); A.getArray()(0,1)=a[1];}
  M m=hsym(4,"m"); auto R=dop<2>(m,d);
  {DensityOperator<2> S(R); S.getArray()(0,1,1,0)=7.; eq(flat<2>(R),m,"copy construction is deep");}
  {DensityOperator<2> S(d); S=R; eq(flat<2>(S),m,"copy assignment"); S.getArray()(0,1,1,0)=7.; eq(flat<2>(R),m,"copy assignment is deep");}
  {StateVector<2> B(d); eq(flat<2>(B),V(4),"default is zero"); DensityOperator<2> S(d); eq(flat<2>(S),M(4),"default is zero");}
}
SR_SCENARIO(views) {
  auto d=dims<2>({2,3}); V a=vsym(6,"a"); auto A=sv<2>(a,d); eq(V(A.vectorView().begin(),A.vectorView().end()),a,"vector view");
  M m=msym(6,"m"); auto R=dop<2>(m,d); auto v=R.matrixView(); for (int i=0;i<6;++i) for (int j=0;j<6;++j) sr_eq(v(i,j),m(i,j),"matrix view");
  for (int i=0;i<2;++i) for (int j=0;j<3;++j) for (int k=0;k<2;++k) for (int l=0;l<3;++l) sr_eq(R(i,j)(k,l),m(3*i+j,3*k+l),"element access");
  R(1,2)(0,1)=5.; sr_eq(R.getArray()(1,2,0,1),C(5),"element write");
}
SR_SCENARIO(transposition) {
  auto d=dims<3>({2,3,1}); V a=vsym(6,"a"); auto A=sv<3>(a,d); A.transposeSelf(1,2,0);
  sr_check(A.getDimensions()(0)==3&&A.getDimensions()(1)==1&&A.getDimensions()(2)==2,"permuted dimensions");
  for (int i=0;i<2;++i) for (int j=0;j<3;++j) sr_eq(A(j,0,i),a[3*i+j],"permuted subsystems");
  auto d2=dims<2>({2,3}); M m=msym(6,"m"); auto R=dop<2>(m,d2); R.transposeSelf(1,0); sr_check(R.getDimensions()(0)==3&&R.getDimensions()(1)==2,"permuted dimensions");
  for (int i=0;i<2;++i) for (int j=0;j<3;++j) for (int k=0;k<2;++k) for (int l=0;l<3;++l) sr_eq(R(j,i)(l,k),m(3*i+j,3*k+l),"permuted subsystems");
}
SR_SCENARIO(hermitian_conjugate) {
  {M m=msym(4,"m"); auto d=dims<2>({2,2}); auto a=arr2<2>(m,d); eq(mat<2>(blitzplusplus::hermitianConjugate(a)),dag(m),"conjugate"); eq(mat<2>(a),m,"operand intact"); auto b=a.copy(); blitzplusplus::hermitianConjugateSelf(b); eq(mat<2>(b),dag(m),"self conjugate");}
  {M m=msym(4,"q"); auto d=dims<1>({4}); auto a=arr2<1>(m,d); eq(mat<1>(blitzplusplus::hermitianConjugate(a)),dag(m),"conjugate");}
  {M m=msym(6,"p"); auto d=dims<2>({2,3}); auto a=arr2<2>(m,d); eq(mat<2>(blitzplusplus::hermitianConjugate(a)),dag(m),"conjugate");}
  {M m=msym(4,"r"); auto a=arr2<1>(m,dims<1>({4})); linalg::CMatrix x(a); linalg::calculateTwoTimesRealPartOfSelf(x); eq(mat<1>(x),m+dag(m),"twice the Hermitian part");}
}
SR_SCENARIO(matrix_application) {
  M m=msym(3,"m"); V v=vsym(3,"v"), w=vsym(3,"w"); auto mm=arr2<1>(m,dims<1>({3})); auto vv=arr<1>(v,dims<1>({3})), ww=arr<1>(w,dims<1>({3}));
  linalg::apply(vv,ww,mm); eq(vec<1>(ww),add(w,m*v),"matrix times vector is added"); eq(vec<1>(vv),v,"operand intact");
}
SR_SCENARIO(direct_sum_and_product) {
  auto x=arr<2>(vsym(4,"x"),dims<2>({2,2})); auto y=arr<1>(vsym(3,"y"),dims<1>({3}));
  using namespace blitzplusplus; auto p=doDirect<dodirect::multiplication,2,1>(x,y), s=doDirect<dodirect::addition,2,1>(x,y);
  for (int i=0;i<2;++i) for (int j=0;j<2;++j) for (int k=0;k<3;++k) {C a=x(i,j), b=y(k); sr_eq(p(i,j,k),a*b,"direct product"); sr_eq(s(i,j,k),a+b,"direct sum");}
}
// flattening to reals and back
template<int R> static void roundTrip(Dims<R> d, const string& l) {
  int n=total<R>(d); M m=hsym(n,"m"); auto rho=dop<R>(m,d);
  {auto f=deflate(rho,true); sr_check(f.size()==n*n,l+" length"); DensityOperator<R> r(d); inflate(f,r,true); eq(mat<R>(r.getArray()),m,l+" round trip"); for (int i=0;i<n;++i) sr_eq(f(i),m(i,i).real(),l+" diagonal first");
   int idx=n; for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) {sr_eq(f(idx++),m(i,j).real(),l+" off-diagonal"); sr_eq(f(idx++),m(i,j).imag(),l+" off-diagonal");}}
  {auto f=deflate(rho,false); sr_check(f.size()==n,l+" length"); for (int i=0;i<n;++i) sr_eq(f(i),m(i,i).real(),l+" diagonal"); DensityOperator<R> r(d); inflate(f,r,false); M x(n); for (int i=0;i<n;++i) x(i,i)=m(i,i); eq(mat<R>(r.getArray()),x,l+" diagonal round trip");}
  {V v=vsym(n,"v"); auto psi=sv<R>(v,d); M vv=qh::dyad(v,v); auto f=deflate(psi,true); DensityOperator<R> r(d); inflate(f,r,true); eq(mat<R>(r.getArray()),vv,l+" pure round trip"); eq(mat<R>(densityOperatorize<R>(psi).getArray()),vv,l+" densityOperatorize"); eq(mat<R>(densityOperatorize<R>(rho).getArray()),m,l+" densityOperatorize");}
}
SR_SCENARIO(flattening) {roundTrip<1>(dims<1>({4}),"rank 1"); roundTrip<2>(dims<2>({2,3}),"rank 2"); roundTrip<3>(dims<3>({2,2,2}),"rank 3");}
// rows/columns of a density operator as state vectors, in order, each visited once
SR_SCENARIO(columns) {
  using namespace blitzplusplus::vfmsi; auto d=dims<2>({2,3}); M m=msym(6,"m"); auto a=arr2<2>(m,d); int n=0;
  for (auto& s : fullRange<Left>(a)) {V c=vec<2>(s); for (int i=0;i<6;++i) sr_eq(c[i],m(i,n),"columns"); s*=C(0,2); ++n; if (n>6) break;}
  sr_check(n==6,"number of columns"); eq(mat<2>(a),C(0,2)*m,"columns cover the matrix");
  auto b=arr2<2>(m,d); n=0; for (auto& s : fullRange<Right>(b)) {V c=vec<2>(s); for (int i=0;i<6;++i) sr_eq(c[i],m(n,i),"rows"); ++n; if (n>6) break;} sr_check(n==6,"number of rows");
}
