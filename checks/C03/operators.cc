// Structured operators act as the matrices they stand for
#include "qh.h"
#include "Tridiagonal.tcc"
#include "Sigma.h"
#include "TridiagonalHamiltonian.h"
using namespace qh;
using namespace quantumoperator;
namespace {
typedef Tridiagonal<1> T1; typedef T1::Diagonal Diag;
Diag mk(const V& v) {Diag d(int(v.size())); for (int i=0;i<int(v.size());++i) d(i)=v[i]; return d;}
template<int R> void actsAs(const Tridiagonal<R>& t, const M& m, Dims<R> d, const string& l) {
  V psi=vsym(total<R>(d),"psi"), acc=vsym(total<R>(d),"acc"); auto a=arr<R>(psi,d), b=arr<R>(acc,d);
  t.apply(a,b); eq(vec<R>(b),add(acc,m*psi),l); eq(vec<R>(a),psi,l+" operand intact");
  for (int i=0;i<R;++i) sr_check(int(t.getDimensions()(i))==d(i),l+" dimensions");
}
// a tridiagonal with offset k: which of the three diagonals are present is given by the bits of `which`
struct Op {T1 t; M m; int n, k;};
Op make(int n, int k, int which, const string& s) {
  V z, mi, pl; M m(n);
  if (which&1) {z=vsym(n,s+"z"); for (int i=0;i<n;++i) m(i,i)=z[i];}
  if (which&2) {mi=vsym(n-k,s+"m"); for (int i=0;i<n-k;++i) m(i+k,i)=mi[i];}
  if (which&4) {pl=vsym(n-k,s+"p"); for (int i=0;i<n-k;++i) m(i,i+k)=pl[i];}
  return {T1(which&1?mk(z):Diag(),which&6?k:0,which&2?mk(mi):Diag(),which&4?mk(pl):Diag()),m,n,k};
}
// e^{m t} X e^{-m t} with diagonal m
M rotated(const M& x, const V& f, double t) {M r(x.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) r(i,j)=x(i,j)*std::exp((f[i]-f[j])*t); return r;}
}
SR_SCENARIO(apply_rank1) {
  int n=4, k=1+sr_choice(3,"k-1"), w=1+sr_choice(7,"which-1"); Op o=make(n,k,w,"a"); if ((w&7)==0) return;
  actsAs<1>(o.t,o.m,dims<1>({n}),"rank 1");
}
SR_SCENARIO(linear_combinations) {
  int n=4, k=1+sr_choice(2,"k-1"), w1=1+sr_choice(7,"w1-1"), w2=1+sr_choice(7,"w2-1"); Op a=make(n,k,w1,"a"), b=make(n,k,w2,"b"); C c=sr_cvar("c"); double x=sr_var("x"); sr_assume_ne(x,0);
  auto d=dims<1>({n});
  actsAs<1>(a.t+b.t,a.m+b.m,d,"sum"); actsAs<1>(a.t-b.t,a.m-b.m,d,"difference"); actsAs<1>(a.t*c,c*a.m,d,"multiple"); actsAs<1>(c*a.t,c*a.m,d,"multiple"); actsAs<1>(x*a.t,C(x)*a.m,d,"real multiple");
  actsAs<1>((a.t/x)*x,a.m,d,"quotient"); actsAs<1>(-a.t,C(-1)*a.m,d,"negative"); actsAs<1>(+a.t,a.m,d,"copy"); actsAs<1>(a.t.dagger(),dag(a.m),d,"Hermitian conjugate");
  actsAs<1>(tridiagPlusHC(a.t),a.m+dag(a.m),d,"plus H.c."); actsAs<1>(tridiagMinusHC(a.t),a.m-dag(a.m),d,"minus H.c."); actsAs<1>(tridiagPlusHC_overI(a.t),C(0,-1)*(a.m+dag(a.m)),d,"plus H.c. over i");
  actsAs<1>(a.t,a.m,d,"operands intact"); actsAs<1>(b.t,b.m,d,"operands intact");
}
SR_SCENARIO(incompatible_structures) { // operators with different offsets have no common tridiagonal form
  Op a=make(4,1,7,"a"), b=make(4,2,7,"b"); bool thrown=false; try {auto s=a.t+b.t;} catch (const std::exception&) {thrown=true;} sr_check(thrown,"different offsets are refused");
}
SR_SCENARIO(incompatible_frequencies) { // operators rotating differently have no common interaction picture
  int n=4, k=sr_choice(4,"which"); Op a=make(n,1,6,"a"), b=make(n,1,6,"b"); V f=vsym(n,"f"), g=f; double d=sr_pos("d"); if (sr_choice(2,"re/im")) g[k]+=C(0,d); else g[k]+=d;
  bool thrown=false; try {auto s=furnishWithFreqs(a.t,mk(f))+furnishWithFreqs(b.t,mk(g));} catch (const std::exception&) {thrown=true;} sr_check(thrown,"different frequencies are refused");
}
SR_SCENARIO(identity) {actsAs<1>(quantumoperator::identity(4),id(4),dims<1>({4}),"identity");}
SR_SCENARIO(direct_product) {
  int w1=1+sr_choice(7,"w1-1"), w2=1+sr_choice(7,"w2-1"); Op a=make(3,1,w1,"a"), b=make(4,2,w2,"b");
  auto p=a.t*b.t; auto d=dims<2>({3,4}); actsAs<2>(p,kron(a.m,b.m),d,"product"); actsAs<2>(p.dagger(),dag(kron(a.m,b.m)),d,"conjugate of a product");
  C c=sr_cvar("c"); actsAs<2>(c*p,c*kron(a.m,b.m),d,"multiple of a product");
  actsAs<2>(tridiagPlusHC(p),kron(a.m,b.m)+dag(kron(a.m,b.m)),d,"product plus H.c.");
}
SR_SCENARIO(sum_of_products) {
  int w1=1+sr_choice(7,"w1-1"), w2=1+sr_choice(7,"w2-1"); Op a=make(3,1,w1,"a"), b=make(3,1,w2,"b"), c=make(3,1,w2,"c"), e=make(3,1,w1,"e");
  actsAs<2>(a.t*b.t+c.t*e.t,kron(a.m,b.m)+kron(c.m,e.m),dims<2>({3,3}),"sum of products");
}
SR_SCENARIO(direct_product_rank3) {
  Op a=make(2,1,2+sr_choice(2,"a"),"a"), b=make(3,1,4+sr_choice(2,"b"),"b"), c=make(2,1,7,"c"); auto d=dims<3>({2,3,2}); M m=kron(kron(a.m,b.m),c.m);
  actsAs<3>(a.t*b.t*c.t,m,d,"left associated"); actsAs<3>(a.t*(b.t*c.t),m,d,"right associated"); actsAs<3>((a.t*b.t*c.t).dagger(),dag(m),d,"conjugate");
}
// interaction picture: the operator at time t is e^{mt} X e^{-mt}
SR_SCENARIO(propagation) {
  int n=4, k=1+sr_choice(2,"k-1"), w=1+sr_choice(7,"which-1"); Op a=make(n,k,w,"a"); V f=vsym(n,"f"); double t=sr_var("t"), s=sr_var("s"); auto d=dims<1>({n});
  auto x=furnishWithFreqs(a.t,mk(f)); actsAs<1>(x,a.m,d,"at the origin of time");
  auto y=x; y.propagate(t); actsAs<1>(y,rotated(a.m,f,t),d,"at t"); sr_eq(y.getTime(),t,"time"); y.propagate(s); actsAs<1>(y,rotated(a.m,f,s),d,"at another time"); y.propagate(0.); actsAs<1>(y,a.m,d,"back");
  actsAs<1>(x,a.m,d,"copy is independent");
  auto h=x.dagger(); h.propagate(t); actsAs<1>(h,rotated(dag(a.m),f,t),d,"conjugate");
  C c=sr_cvar("c"); auto sc=c*x; sc.propagate(t); actsAs<1>(sc,c*rotated(a.m,f,t),d,"multiple");
}
SR_SCENARIO(propagation_sum) {
  int n=4, w1=1+sr_choice(7,"w1-1"), w2=1+sr_choice(7,"w2-1"); Op a=make(n,1,w1,"a"), b=make(n,1,w2,"b"); V f=vsym(n,"f"); double t=sr_var("t"); auto d=dims<1>({n});
  if (!w1||!w2) return;
  auto x=furnishWithFreqs(a.t,mk(f))+furnishWithFreqs(b.t,mk(f)); x.propagate(t); actsAs<1>(x,rotated(a.m+b.m,f,t),d,"sum");
  auto y=tridiagMinusHC(furnishWithFreqs(a.t,mk(f))); y.propagate(t); actsAs<1>(y,rotated(a.m-dag(a.m),f,t),d,"minus H.c.");
}
SR_SCENARIO(propagation_product) {
  int w1=1+sr_choice(7,"w1-1"), w2=1+sr_choice(7,"w2-1"); Op a=make(3,1,w1,"a"), b=make(3,1,w2,"b"); V f=vsym(3,"f"), g=vsym(3,"g"); double t=sr_var("t"); auto d=dims<2>({3,3});
  auto p=furnishWithFreqs(a.t,mk(f))*furnishWithFreqs(b.t,mk(g)); p.propagate(t); actsAs<2>(p,kron(rotated(a.m,f,t),rotated(b.m,g,t)),d,"product");
  auto h=tridiagMinusHC(furnishWithFreqs(a.t,mk(f))*furnishWithFreqs(b.t,mk(g))); h.propagate(t); M m=kron(a.m,b.m); V fg; for (int i=0;i<3;++i) for (int j=0;j<3;++j) fg.push_back(f[i]+g[j]); actsAs<2>(h,rotated(m-dag(m),fg,t),d,"product minus H.c.");
}
SR_SCENARIO(propagation_half_product) { // only one factor is in interaction picture
  int w1=1+sr_choice(7,"w1-1"), w2=1+sr_choice(7,"w2-1"); Op a=make(3,1,w1,"a"), b=make(3,1,w2,"b"); V f=vsym(3,"f"); double t=sr_var("t"); auto d=dims<2>({3,3});
  {auto p=furnishWithFreqs(a.t,mk(f))*b.t; p.propagate(t); actsAs<2>(p,kron(rotated(a.m,f,t),b.m),d,"left");}
  {auto p=tridiagPlusHC(furnishWithFreqs(a.t,mk(f))*b.t); p.propagate(t); M m=kron(a.m,b.m); V ff; for (int i=0;i<3;++i) for (int j=0;j<3;++j) ff.push_back(f[i]); actsAs<2>(p,rotated(m+dag(m),ff,t),d,"left plus H.c.");}
  {auto p=b.t*furnishWithFreqs(a.t,mk(f)); p.propagate(t); actsAs<2>(p,kron(b.m,rotated(a.m,f,t)),d,"right");}
  {auto p=(b.t*furnishWithFreqs(a.t,mk(f))).dagger(); p.propagate(t); V ff; for (int i=0;i<3;++i) for (int j=0;j<3;++j) ff.push_back(f[j]); actsAs<2>(p,rotated(dag(kron(b.m,a.m)),ff,t),d,"conjugate of right");}
}
SR_SCENARIO(hamiltonian_list) { // a Hamiltonian given as a list of operators adds them all up, whatever the order of times it is evaluated at
  Op a=make(3,1,6,"a"), b=make(3,2,7,"b"); V f=vsym(3,"f"); double t=sr_var("t"), s=sr_var("s"); std::list<T1> l{furnishWithFreqs(a.t,mk(f)),furnishWithFreqs(b.t,mk(f))};
  struct H : TridiagonalHamiltonian<1,true> {using TridiagonalHamiltonian<1,true>::TridiagonalHamiltonian;}; H h(l); const structure::Hamiltonian<1>& hh=h;
  V psi=vsym(3,"psi"); auto d=dims<1>({3}); double t0=sr_var("t0");
  for (double x : {t,s,t}) {auto p=arr<1>(psi,d); CArray<1> r(3); r=0; hh.addContribution(x,p,r,t0); eq(vec<1>(r),(rotated(a.m,f,x-t0)+rotated(b.m,f,x-t0))*psi,"sum over the list");}
}
template<int L, int R> static M sig(int n) {M r(n); r(L,R)=1; return r;}
template<typename O> static void actsAsOp2(const O& o, const M& m, Dims<2> d, const string& l) {V psi=vsym(total<2>(d),"psi"), acc=vsym(total<2>(d),"acc"); auto a=arr<2>(psi,d), b=arr<2>(acc,d); o.apply(a,b); eq(vec<2>(b),add(acc,m*psi),l); eq(vec<2>(a),psi,l+" operand intact");}
template<typename O> static void actsAsOp3(const O& o, const M& m, Dims<3> d, const string& l) {V psi=vsym(total<3>(d),"psi"), acc=vsym(total<3>(d),"acc"); auto a=arr<3>(psi,d), b=arr<3>(acc,d); o.apply(a,b); eq(vec<3>(b),add(acc,m*psi),l);}
SR_SCENARIO(sigma) {
  {V psi=vsym(3,"psi"), acc=vsym(3,"acc"); auto a=arr<1>(psi,dims<1>({3})), b=arr<1>(acc,dims<1>({3})); Sigma<2,0> s; s.apply(a,b); eq(vec<1>(b),add(acc,sig<2,0>(3)*psi),"sigma"); auto e=arr<1>(acc,dims<1>({3})); s.dagger().apply(a,e); eq(vec<1>(e),add(acc,sig<0,2>(3)*psi),"conjugate of sigma");}
  Op a=make(3,1,1+sr_choice(7,"which-1"),"a"); Sigma<1,0> s; Sigma<0,2> q;
  actsAsOp2(s*a.t,kron(sig<1,0>(2),a.m),dims<2>({2,3}),"sigma times operator"); actsAsOp2(a.t*s,kron(a.m,sig<1,0>(2)),dims<2>({3,2}),"operator times sigma");
  {Sigma<1,0> s1; Sigma<0,2> s2; actsAsOp2(s1*s2,kron(sig<1,0>(2),sig<0,2>(3)),dims<2>({2,3}),"sigma times sigma");}
  {auto p=s*a.t; actsAsOp3(p*q,kron(kron(sig<1,0>(2),a.m),sig<0,2>(3)),dims<3>({2,3,3}),"sigma times operator times sigma");}
}
// the main diagonal given as frequencies at construction: the operator is that without the main diagonal, in the interaction picture the latter generates
SR_SCENARIO(construction_with_frequencies) {
  int n=4, k=1+sr_choice(3,"k-1"); V z=vsym(n,"z"), mi=vsym(n-k,"m"), pl=vsym(n-k,"p"); T1 t(mk(z),k,mk(mi),mk(pl),true); M m(n); for (int i=0;i<n-k;++i) {m(i+k,i)=mi[i]; m(i,i+k)=pl[i];} V f(n); for (int i=0;i<n;++i) f[i]=-z[i];
  actsAs<1>(t,m,dims<1>({n}),"before propagation"); double time=sr_var("t"); t.propagate(time); actsAs<1>(t,rotated(m,f,time),dims<1>({n}),"propagated");
}
// diagonals that do not fit together are refused, fitting ones are not
SR_SCENARIO(construction_consistency) {
  int nz=sr_choice(4,"zero"), k=sr_choice(4,"k"), nm=sr_choice(4,"minus"), np=sr_choice(4,"plus"); if (nz+nm+np==0) return; auto d=[](int n, C c) {return mk(V(n,c));};
  bool fits=(!nz || !nm || nm+k==nz) && (!nz || !np || np+k==nz) && (!nm || !np || nm==np) && (k || !(nm+np)), thrown=false; if (nz && nz<k) return; // an offset beyond the main diagonal: outside
  try {T1 t(d(nz,1.),k,d(nm,2.),d(np,3.));} catch (const std::invalid_argument&) {thrown=true;} sr_check(thrown==!fits,fits ? "fitting diagonals are accepted" : "diagonals that do not fit are refused");
}
