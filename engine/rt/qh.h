// Helpers shared by the harnesses: symbolic states, reference matrices (plain loops, independent of the library's own algebra).
#ifndef QH_H
#define QH_H
#include "sr.h"
#include "StateVector.h"
#include "DensityOperator.h"
#include "Structure.h"
#include "Pars.h"
#include <vector>
#include <functional>
#include <string>
#include <algorithm>

namespace qh {

using C=std::complex<double>;
using std::string; using std::vector;
inline C I{0,1};

// ---- dense reference matrices (row, column)
struct M {
  int n=0; vector<C> a;
  M() {}
  explicit M(int n_) : n(n_), a(n_*n_,C(0)) {}
  C& operator()(int i, int j) {return a[i*n+j];}
  C operator()(int i, int j) const {return a[i*n+j];}
};
inline M operator+(const M& x, const M& y) {M r(x.n); for (size_t i=0;i<r.a.size();++i) r.a[i]=x.a[i]+y.a[i]; return r;}
inline M operator-(const M& x, const M& y) {M r(x.n); for (size_t i=0;i<r.a.size();++i) r.a[i]=x.a[i]-y.a[i]; return r;}
inline M operator*(C c, const M& y) {M r(y.n); for (size_t i=0;i<r.a.size();++i) r.a[i]=c*y.a[i]; return r;}
inline M operator*(const M& x, const M& y) {
  M r(x.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) {C s=0; for (int k=0;k<x.n;++k) {C u=x(i,k), v=y(k,j); s+=u*v;} r(i,j)=s;} return r;}
inline M dag(const M& x) {M r(x.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) r(i,j)=std::conj(x(j,i)); return r;}
inline M id(int n) {M r(n); for (int i=0;i<n;++i) r(i,i)=1; return r;}
inline M kron(const M& x, const M& y) {M r(x.n*y.n); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) for (int k=0;k<y.n;++k) for (int l=0;l<y.n;++l) r(i*y.n+k,j*y.n+l)=x(i,j)*y(k,l); return r;}
inline C tr(const M& x) {C s=0; for (int i=0;i<x.n;++i) s+=x(i,i); return s;}
inline M diag(const vector<C>& d) {M r(d.size()); for (size_t i=0;i<d.size();++i) r(i,i)=d[i]; return r;}
// ladder operator, number operator
inline M aop(int n) {M r(n); for (int i=0;i+1<n;++i) r(i,i+1)=sqrt(double(i+1)); return r;}
inline M nop(int n) {M r(n); for (int i=0;i<n;++i) r(i,i)=i; return r;}

typedef vector<C> V;
inline V operator*(const M& m, const V& v) {V r(m.n); for (int i=0;i<m.n;++i) {C s=0; for (int j=0;j<m.n;++j) s+=m(i,j)*v[j]; r[i]=s;} return r;}
inline V add(const V& x, const V& y) {V r(x); for (size_t i=0;i<r.size();++i) r[i]+=y[i]; return r;}
inline V scale(C c, const V& y) {V r(y); for (auto& z : r) z=c*z; return r;}
inline double norm2(const V& x) {double s=0; for (C c : x) s+=c.real()*c.real()+c.imag()*c.imag(); return s;}
inline M dyad(const V& x, const V& y) {M r(x.size()); for (int i=0;i<r.n;++i) for (int j=0;j<r.n;++j) r(i,j)=x[i]*std::conj(y[j]); return r;}
inline void eq(const V& x, const V& y, const string& l) {sr_check(x.size()==y.size(),l+" size"); for (size_t i=0;i<x.size()&&i<y.size();++i) sr_eq(x[i],y[i],l+"["+std::to_string(i)+"]");}
inline void eq(const M& x, const M& y, const string& l) {sr_check(x.n==y.n,l+" size"); for (int i=0;i<x.n;++i) for (int j=0;j<x.n;++j) sr_eq(x(i,j),y(i,j),l+"["+std::to_string(i)+","+std::to_string(j)+"]");}
inline V vsym(int n, const string& name) {V r(n); for (int i=0;i<n;++i) r[i]=sr_cvar(name+std::to_string(i)); return r;}
inline M msym(int n, const string& name) {M r(n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) r(i,j)=sr_cvar(name+std::to_string(i)+"_"+std::to_string(j)); return r;}
inline M hsym(int n, const string& name) {M r(n); for (int i=0;i<n;++i) {r(i,i)=sr_var((name+std::to_string(i)).c_str()); for (int j=0;j<i;++j) {r(i,j)=sr_cvar(name+std::to_string(i)+"_"+std::to_string(j)); r(j,i)=std::conj(r(i,j));}} return r;}

// ---- conversions between flat (row-major) reference vectors and the library's arrays
template<int R> using Dims=::ExtTiny<R>;
template<int R> Dims<R> dims(std::initializer_list<int> l) {Dims<R> d; int i=0; for (int x : l) d(i++)=x; return d;}
template<int R> int total(const Dims<R>& d) {int p=1; for (int i=0;i<R;++i) p*=d(i); return p;}
template<int R> blitz::TinyVector<int,R> unflat(const Dims<R>& d, int k) {blitz::TinyVector<int,R> r; for (int i=R-1;i>=0;--i) {r(i)=k%d(i); k/=d(i);} return r;}

template<int R> CArray<R> arr(const V& v, const Dims<R>& d) {CArray<R> a(d); for (int k=0;k<int(v.size());++k) a(unflat<R>(d,k))=v[k]; return a;}
template<int R> V vec(const CArray<R>& a) {Dims<R> d; for (int i=0;i<R;++i) d(i)=a.extent(i); V v(total<R>(d)); for (int k=0;k<int(v.size());++k) v[k]=a(unflat<R>(d,k)); return v;}
template<int R> CArray<2*R> arr2(const M& m, const Dims<R>& d) {
  blitz::TinyVector<int,2*R> e; for (int i=0;i<R;++i) e(i)=e(R+i)=d(i);
  CArray<2*R> a(e);
  for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) {blitz::TinyVector<int,2*R> ix; auto x=unflat<R>(d,i), y=unflat<R>(d,j); for (int q=0;q<R;++q) {ix(q)=x(q); ix(R+q)=y(q);} a(ix)=m(i,j);}
  return a;
}
template<int R> M mat(const CArray<2*R>& a) {
  Dims<R> d; for (int i=0;i<R;++i) d(i)=a.extent(i); M m(total<R>(d));
  for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) {blitz::TinyVector<int,2*R> ix; auto x=unflat<R>(d,i), y=unflat<R>(d,j); for (int q=0;q<R;++q) {ix(q)=x(q); ix(R+q)=y(q);} m(i,j)=a(ix);}
  return m;
}
template<int R> quantumdata::StateVector<R> sv(const V& v, const Dims<R>& d) {
  quantumdata::StateVector<R> psi(d); for (int k=0;k<int(v.size());++k) psi.getArray()(unflat<R>(d,k))=v[k]; return psi;
}
template<int R> quantumdata::DensityOperator<R> dop(const M& m, const Dims<R>& d) {
  quantumdata::DensityOperator<R> rho(d); CArray<2*R> a(arr2<R>(m,d)); rho.getArray()=a; return rho;
}

// ---- parts of the dynamics of a system, acting on flat vectors
template<int R> struct Sys {
  structure::QuantumSystemWrapper<R> w; Dims<R> d;
  Sys(structure::QuantumSystemPtr<R> p) : w(p,true) {auto e=p->getDimensions(); for (int i=0;i<R;++i) d(i)=e(i);}
  int n() const {return total<R>(d);}
  V U(double t, const V& v, double t0) const {CArray<R> a(arr<R>(v,d)); w.actWithU(t,a,t0); return vec<R>(a);}
  V H(double t, const V& v, double t0) const {CArray<R> a(arr<R>(v,d)), r(d); r=0; w.addContribution(t,a,r,t0); return vec<R>(r);}
  // H added on top of what is already there
  V H(double t, const V& v, double t0, const V& init) const {CArray<R> a(arr<R>(v,d)), r(arr<R>(init,d)); w.addContribution(t,a,r,t0); return vec<R>(r);}
  int nJ() const {return w.getLi() ? w.getLi()->nAvr() : 0;}
  V J(double t, const V& v, int k) const {CArray<R> a(arr<R>(v,d)); w.actWithJ(t,a,k); return vec<R>(a);}
  M S(double t, const M& m, int k, const M* init=nullptr) const {
    CArray<2*R> a(arr2<R>(m,d)), r(init ? arr2<R>(*init,d) : arr2<R>(M(m.n),d)); w.actWithSuperoperator(t,a,r,k); return mat<R>(r);}
  vector<double> rates(double t, const V& v) const {auto psi=sv<R>(v,d); auto r(structure::average<R>(w.getLi(),t,psi)); vector<double> x; for (int i=0;i<int(r.size());++i) x.push_back(r(i)); return x;}
  vector<double> rates(double t, const M& m) const {auto rho=dop<R>(m,d); auto r(structure::average<R>(w.getLi(),t,rho)); vector<double> x; for (int i=0;i<int(r.size());++i) x.push_back(r(i)); return x;}
};

inline V expDiag(const vector<C>& D, double t, const V& v) { // e^{D t} v for diagonal D
  V r(v); for (size_t i=0;i<v.size();++i) r[i]=std::exp(D[i]*t)*v[i]; return r;
}
// basis vector
inline V basis(int n, int k) {V r(n,C(0)); r[k]=1; return r;}
} // qh
#endif
