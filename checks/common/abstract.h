// Abstract elements with arbitrary (symbolic) dynamics, to be put together by the real composites and evolved by the real trajectories
#ifndef ABSTRACT_H
#define ABSTRACT_H
#include "qh.h"
#include "Free.h"
#include "Interaction.h"
#include "Structure.h"
#include <sstream>
namespace qh {
// a few entries per row, so that nothing is symmetric but the polynomials stay small
inline M ssym(int n, const string& name) {if (n<=2) return msym(n,name); M r(n); for (int i=0;i<n;++i) {r(i,(i*3+1)%n)+=sr_cvar(name+std::to_string(i)+"a"); r(i,(i+2)%n)+=sr_cvar(name+std::to_string(i)+"b");} return r;}
template<int R> struct Dyn {
  typedef std::shared_ptr<Dyn> P;
  Dims<R> d; int n; V u0; M h0,h1,h2; vector<M> j0,j1,b,c,r,o; bool master=true, superop=true; double freq=0; string name; double proc=1;
  mutable vector<vector<double>> streamed; mutable vector<long> keyAt;
  Dyn(const Dims<R>& dd, const string& l, int nJ, int nO) : d(dd), n(total<R>(dd)), name(l) {
    u0=vsym(n,l+"u"); h0=ssym(n,l+"h"); h1=ssym(n,l+"g"); h2=ssym(n,l+"f");
    for (int i=0;i<nJ;++i) {string k=std::to_string(i); j0.push_back(ssym(n,l+"j"+k)); j1.push_back(ssym(n,l+"k"+k)); b.push_back(ssym(n,l+"b"+k)); c.push_back(ssym(n,l+"c"+k)); r.push_back(ssym(n,l+"r"+k));}
    for (int i=0;i<nO;++i) o.push_back(ssym(n,l+"o"+std::to_string(i)));
    proc=sr_var((l+"p").c_str());
  }
  // the two times play different roles everywhere
  M U(double t, double t0) const {V x(n); for (int i=0;i<n;++i) x[i]=u0[i]*t+C(t0); return diag(x);}
  M H(double t, double t0) const {return h0+C(t)*h1+C(t0)*h2;}
  M J(int k, double t) const {return j0[k]+C(t)*j1[k];}
  M S(int k, double t, const M& rho) const {return C(t)*(b[k]*rho*c[k]);}
  double rate(int k, double t, const M& rho) const {return t*tr(r[k]*rho).real();}
  double avr(int k, double t, const M& rho) const {return t*tr(o[k]*rho).real();}
};
template<int R> M lazyM(const quantumdata::LazyDensityOperator<R>& l, const Dims<R>& d) {
  int n=total<R>(d); M m(n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) {auto x=unflat<R>(d,i), y=unflat<R>(d,j); if constexpr (R==1) m(i,j)=l(x(0))(y(0)); else {typename quantumdata::LazyDensityOperator<R>::Idx p,q; for (int k=0;k<R;++k) {p(k)=x(k); q(k)=y(k);} m(i,j)=l(p)(q);}}
  return m;
}
template<int R> struct TEx : structure::Exact<R> {typename Dyn<R>::P p_ex; void set_ex(typename Dyn<R>::P p) {p_ex=p;} private: bool applicableInMaster_v() const override {return p_ex->master;}
  void actWithU_v(double t, CArray<R>& psi, double t0) const override {V v=p_ex->U(t,t0)*vec<R>(psi); auto a=arr<R>(v,p_ex->d); psi=a;}};
template<int R> struct THa : structure::Hamiltonian<R> {typename Dyn<R>::P p_ha; void set_ha(typename Dyn<R>::P p) {p_ha=p;} private:
  void addContribution_v(double t, const CArray<R>& psi, CArray<R>& dpsidt, double t0) const override {auto a=arr<R>(p_ha->H(t,t0)*vec<R>(psi),p_ha->d); dpsidt+=a;}};
template<int R> struct TLi : structure::Liouvillean<R> {typename Dyn<R>::P p_li; void set_li(typename Dyn<R>::P p) {p_li=p;} private:
  void actWithJ_v(double t, CArray<R>& psi, size_t k) const override {sr_check(k<p_li->j0.size(),"jump number within range"); auto a=arr<R>(p_li->J(k,t)*vec<R>(psi),p_li->d); psi=a;}
  void actWithSuperoperator_v(double t, const CArray<2*R>& rho, CArray<2*R>& drhodt, size_t k) const override {if (!p_li->superop) throw structure::SuperoperatorNotImplementedException(k); sr_check(k<p_li->j0.size(),"superoperator number within range"); auto a=arr2<R>(p_li->S(k,t,mat<R>(rho)),p_li->d); drhodt+=a;}
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<p_li->name<<"L"<<i<<"\n"; i+=p_li->j0.size(); return os;}
  size_t nAvr_v() const override {return p_li->j0.size();}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& l) const override {M m=lazyM<R>(l,p_li->d); structure::Averages a(p_li->r.size()); for (size_t k=0;k<p_li->r.size();++k) a(int(k))=p_li->rate(k,t,m); return a;}};
template<int R> struct TAv : structure::Averaged<R> {typename Dyn<R>::P p_av; void set_av(typename Dyn<R>::P p) {p_av=p;} private:
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<p_av->name<<"A"<<i<<"\n"; i+=p_av->o.size(); return os;}
  size_t nAvr_v() const override {return p_av->o.size();}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& l) const override {M m=lazyM<R>(l,p_av->d); structure::Averages a(p_av->o.size()); for (size_t k=0;k<p_av->o.size();++k) a(int(k))=p_av->avr(k,t,m); return a;}
  void process_v(structure::Averages& a) const override {sr_check(a.size()==int(p_av->o.size()),"number of averages to process"); for (int k=a.size()-1;k>=0;--k) a(k)=p_av->proc*a(k)-(k ? a(k-1)*a(k-1) : 0.);}
  std::ostream& stream_v(const structure::Averages& a, std::ostream& os, int) const override {vector<double> v; for (int k=0;k<int(a.size());++k) v.push_back(a(k)); p_av->streamed.push_back(v); return os<<p_av->name;}};
template<int I> struct Nothing {};
enum {EX=1,HA=2,LI=4,AV=8};
template<int R, int MASK, typename BASE> struct TElem : BASE,
  std::conditional_t<bool(MASK&EX),TEx<R>,Nothing<0>>, std::conditional_t<bool(MASK&HA),THa<R>,Nothing<1>>, std::conditional_t<bool(MASK&LI),TLi<R>,Nothing<2>>, std::conditional_t<bool(MASK&AV),TAv<R>,Nothing<3>> {
  template<typename... A> TElem(typename Dyn<R>::P p, A&&... a) : BASE(std::forward<A>(a)...) {
    if constexpr (bool(MASK&EX)) this->set_ex(p); if constexpr (bool(MASK&HA)) this->set_ha(p); if constexpr (bool(MASK&LI)) this->set_li(p); if constexpr (bool(MASK&AV)) this->set_av(p);}
};
typedef std::list<structure::DynamicsBase::RF> RFs;
template<int MASK=15> structure::FreePtr tfree(int mask, Dyn<1>::P p) {
  if (mask==MASK) return std::make_shared<TElem<1,MASK,structure::Free>>(p,size_t(p->n),RFs{{"f",p->freq,1.}});
  if constexpr (MASK>0) return tfree<MASK-1>(mask,p); else return {};
}
template<int R, int MASK=15> structure::InteractionPtr<R> tia(int mask, typename Dyn<R>::P p, const std::array<structure::FreePtr,R>& f) {
  if (mask==MASK) return std::make_shared<TElem<R,MASK,structure::Interaction<R>>>(p,f,RFs{{"f",p->freq,1.}});
  if constexpr (MASK>0) return tia<R,MASK-1>(mask,p,f); else return {};
}
// the operator m of the subsystems pos (in this order) within the whole
inline M embed(const M& m, const vector<int>& pos, const vector<int>& d) {
  int n=1; for (int x : d) n*=x; M r(n);
  auto idx=[&](int k) {vector<int> x(d.size()); for (int i=int(d.size())-1;i>=0;--i) {x[i]=k%d[i]; k/=d[i];} return x;};
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) {
    auto x=idx(i), y=idx(j); int p=0,q=0; for (int k : pos) {p=p*d[k]+x[k]; q=q*d[k]+y[k];}
    bool same=true; for (size_t k=0;k<d.size();++k) if (std::find(pos.begin(),pos.end(),int(k))==pos.end() && x[k]!=y[k]) same=false;
    if (same) r(i,j)=m(p,q);
  }
  return r;
}
// what subsystem pos sees of rho
inline M reduced(const M& rho, const vector<int>& pos, const vector<int>& d) {
  int s=1; for (int k : pos) s*=d[k]; M r(s); M e(s);
  for (int i=0;i<s;++i) for (int j=0;j<s;++j) {M u(s); u(j,i)=1; r(i,j)=tr(embed(u,pos,d)*rho);}
  return r;
}
} // qh
#endif
