// Stand-ins around the real MCWF_Trajectory: any ODE stepper, any stream of random numbers, any dynamics
#ifndef MCWF_H
#define MCWF_H
#include "abstract.h"
#include <random>
namespace qh {
// a source of random numbers: every number is an arbitrary real of [0,1)
struct Rng {
  using result_type=unsigned long; unsigned long s=0,p=0; int drawn=0; static inline vector<double> us; // numbers in the order of drawing
  Rng(unsigned long a, unsigned long b) : s(a), p(b) {}
  static constexpr result_type min() {return 0;} static constexpr result_type max() {return ~0ul;}
  result_type operator()() {return 0;}
  template<typename A> void serialize(A& ar, const unsigned) {ar & s & p & drawn;}
};
inline double draw(Rng& r) {
  string n="random"+std::to_string(Rng::us.size()); double u=sr_nonneg(n.c_str()); sr_assume_lt(u,1.); Rng::us.push_back(u); ++r.drawn; return u;
}
}
namespace std {template<> inline double generate_canonical<double,numeric_limits<double>::digits,qh::Rng>(qh::Rng& r) {return qh::draw(r);}}
#include "MCWF_Trajectory.h"
namespace qh {
template<int R> struct QS : structure::QuantumSystem<R> {QS(const Dims<R>& d) : structure::QuantumSystem<R>(typename structure::QuantumSystem<R>::Dimensions(d)) {} double f=1; private: double highestFrequency_v() const override {return f;} std::ostream& streamParameters_v(std::ostream& os) const override {return os;}};
// jump rates of arbitrary value, a new one on each call; negative ones mark the channels whose rate is to be got from the jumped state
struct Rates {vector<bool> special; vector<vector<double>> given; vector<double> at; vector<M> state; string name="rate"; bool consistent=false; double fixed=-1; std::function<void(double,const vector<double>&,const M&)> onRates;};
template<int R> struct RLi : structure::Liouvillean<R> {
  typename Dyn<R>::P p_li; std::shared_ptr<Rates> rates_=std::make_shared<Rates>();
  void set_li(typename Dyn<R>::P p) {p_li=p; rates_->special.assign(p->j0.size(),false);}
private:
  void actWithJ_v(double t, CArray<R>& psi, size_t k) const override {sr_check(k<p_li->j0.size(),"jump number within range"); auto a=arr<R>(p_li->J(k,t)*vec<R>(psi),p_li->d); psi=a;}
  void actWithSuperoperator_v(double, const CArray<2*R>&, CArray<2*R>&, size_t k) const override {throw structure::SuperoperatorNotImplementedException(k);}
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {i+=p_li->j0.size(); return os;}
  size_t nAvr_v() const override {return p_li->j0.size();}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& l) const override {
    auto& r=*rates_; M m=lazyM<R>(l,p_li->d); structure::Averages a(r.special.size()); vector<double> g;
    for (size_t k=0;k<r.special.size();++k) {double x; if (r.special[k]) x=-1; else if (r.fixed>=0) x=r.fixed; else if (r.consistent) {M j=p_li->J(k,t); x=tr(dag(j)*j*m).real();} else x=sr_nonneg((r.name+std::to_string(r.given.size())+"_"+std::to_string(k)).c_str()); g.push_back(x); a(int(k))=x;}
    r.given.push_back(g); r.at.push_back(t); r.state.push_back(m); if (r.onRates) r.onRates(t,g,m); return a;
  }
};
template<int R, int MASK> struct MS : QS<R>, std::conditional_t<bool(MASK&EX),TEx<R>,Nothing<0>>, std::conditional_t<bool(MASK&HA),THa<R>,Nothing<1>>, std::conditional_t<bool(MASK&LI),RLi<R>,Nothing<2>>, std::conditional_t<bool(MASK&AV),TAv<R>,Nothing<3>> {
  MS(typename Dyn<R>::P p) : QS<R>(p->d) {if constexpr (bool(MASK&EX)) this->set_ex(p); if constexpr (bool(MASK&HA)) this->set_ha(p); if constexpr (bool(MASK&LI)) this->set_li(p); if constexpr (bool(MASK&AV)) this->set_av(p);}
};
// stands for any ODE stepper
template<int R> struct Stepper {
  struct Data {int steps=0; double dtDid=0, dtTry=1, deltaT=0; std::function<V(V,double)> derivative; std::function<void(CArray<R>&,double&)> act; vector<double> dtTrySet, dtDidSet;};
  std::shared_ptr<Data> d=std::make_shared<Data>();
  template<typename SYS> void step(double deltaT, std::ostream&, SYS sys, double& t, CArray<R>& a) {
    ++d->steps; d->deltaT=deltaT; if (d->steps>12) {sr_check(false,"no endless retries"); throw std::runtime_error("endless");} Dims<R> dd; for (int i=0;i<R;++i) dd(i)=a.extent(i);
    d->derivative=[sys,dd](V v, double tt) {CArray<R> y(arr<R>(v,dd)), f(arr<R>(vsym(v.size(),"garbage"),dd)); sys(y,f,tt); eq(vec<R>(y),v,"operand of the derivative untouched"); return vec<R>(f);};
    d->act(a,t);
  }
  double getDtDid() const {return d->dtDid;} double getDtTry() const {return d->dtTry;}
  void setDtDid(double x) {d->dtDid=x; d->dtDidSet.push_back(x);} void setDtTry(double x) {d->dtTry=x; d->dtTrySet.push_back(x);}
  std::ostream& streamParameters(std::ostream& os) const {return os;} std::ostream& logOnEnd(std::ostream& os) const {return os;}
  template<typename A> A& stateIO(A& ar) {return ar & d->dtDid & d->dtTry;}
};
template<int R> using Traj=quantumtrajectory::MCWF_Trajectory<R,Stepper<R>,Rng>;
template<int R> V state(const Traj<R>& t) {return vec<R>(t.getStateVector().getArray());}
inline V normalised(const V& v) {double s=1/sqrt(norm2(v)); return scale(s,v);}
} // qh
#endif
