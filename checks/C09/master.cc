// The master equation: what the ODE stepper is asked to integrate, and what becomes of the density operator after a step
#include "../common/abstract.h"
#include "Master.h"
#include "Mode.h"
#include "Qbit.h"
#include "JaynesCummings.h"
#include "BinarySystem.h"
#include "ModeFunction.h"
using namespace qh;
namespace {
// observes the state the trajectory streams
template<int R> struct Cap : structure::Averaged<R> {
  Dims<R> dc; mutable M seen; mutable double at; mutable int times=0; private:
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<"key"<<i<<"\n"; i+=2; return os;}
  size_t nAvr_v() const override {return 2;}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& l) const override {seen=lazyM<R>(l,dc); at=t; ++times; structure::Averages a(2); a(0)=seen(0,0).real(); a(1)=seen(0,1).imag(); return a;}
  void process_v(structure::Averages& a) const override {a(1)=a(1)*a(1);}
  std::ostream& stream_v(const structure::Averages&, std::ostream& os, int) const override {return os;}
};
template<int R> struct QS : structure::QuantumSystem<R> {QS(const Dims<R>& d) : structure::QuantumSystem<R>(typename structure::QuantumSystem<R>::Dimensions(d)) {} double f=1; private: double highestFrequency_v() const override {return f;} std::ostream& streamParameters_v(std::ostream& os) const override {return os;}};
template<int R, int MASK> struct S : TElem<R,MASK,QS<R>>, Cap<R> {S(typename Dyn<R>::P p) : TElem<R,MASK,QS<R>>(p,p->d) {this->dc=p->d;}};
// stands for any ODE stepper: looks at the derivative at an arbitrary point, then leaves an arbitrary state at an arbitrary later time
template<int R> struct Engine {
  struct Data {int steps=0; double dtDid=0, dtTry=1, deltaT=0; std::function<M(M,double)> derivative; std::function<void(CArray<2*R>&,double&)> act;};
  std::shared_ptr<Data> d=std::make_shared<Data>();
  template<typename SYS> void step(double deltaT, std::ostream&, SYS sys, double& t, CArray<2*R>& a) {
    ++d->steps; d->deltaT=deltaT; Dims<R> dd; for (int i=0;i<R;++i) dd(i)=a.extent(i);
    d->derivative=[sys,dd](M m, double tt) {CArray<2*R> y(arr2<R>(m,dd)), yc(y.copy()), f(arr2<R>(msym(m.n,"garbage"),dd)); sys(y,f,tt); eq(mat<R>(y),mat<R>(yc),"operand of the derivative untouched"); return mat<R>(f);};
    d->act(a,t);
  }
  double getDtDid() const {return d->dtDid;} double getDtTry() const {return d->dtTry;}
  void setDtDid(double x) {d->dtDid=x;} void setDtTry(double x) {d->dtTry=x;}
  std::ostream& streamParameters(std::ostream& os) const {return os;} std::ostream& logOnEnd(std::ostream& os) const {return os;}
  template<typename A> A& stateIO(A& ar) {return ar;}
};
template<int R> M rhs(const Dyn<R>& p, int mask, const M& rho, double t, double t0) {
  M r(p.n); if (mask&HA) {M x=p.H(t,t0)*rho; r=x+dag(x);}
  if (mask&LI) for (size_t k=0;k<p.j0.size();++k) r=r+(p.superop ? p.S(k,t,rho) : p.J(k,t)*rho*dag(p.J(k,t)));
  return r;
}
M smooth(const M& x) {M h=x+dag(x); double s=tr(h).real(); return C(1/s)*h;}
template<int R, int MASK> void evolve(const Dims<R>& d, bool superop, int nJ, int nSteps) {
  auto p=std::make_shared<Dyn<R>>(d,"s",nJ,0); p->superop=superop;
  auto s=std::make_shared<S<R,MASK>>(p); Engine<R> e; int n=p->n; std::ostringstream os;
  M rho0=hsym(n,"rho"); sr_assume_lt(0,tr(rho0).real());
  quantumtrajectory::Master<R,Engine<R>> m(structure::QuantumSystemPtr<R>(s),dop<R>(rho0,d),e,0);
  sr_eq(m.getTime(),0.,"starts at time zero");
  m.stream(os,6); eq(s->seen,rho0,"initial state");
  double t0=0;
  for (int k=0;k<nSteps;++k) {
    string l=std::to_string(k); M at=hsym(n,"x"+l), after=hsym(n,"y"+l); double t=sr_var(("t"+l).c_str()), dt=sr_pos(("dt"+l).c_str()), want=sr_pos(("want"+l).c_str()); M before=s->seen;
    e.d->act=[&](CArray<2*R>& a, double& tt) {
      eq(mat<R>(a),before,"the step starts from the current state"); sr_eq(tt,t0,"the step starts from the current time");
      eq(e.d->derivative(at,t),rhs<R>(*p,MASK,at,t,t0),"derivative");
      CArray<2*R> b(arr2<R>(after,d)); a=b; tt+=dt; e.d->dtDid=dt;
    };
    double t1=t0+dt; M u=p->U(t1,t0); M x=(MASK&EX) ? u*after*dag(u) : after; sr_assume_lt(0,tr(x).real());
    m.step(want,os);
    sr_check(e.d->steps==k+1,"one step of the stepper per step"); sr_eq(e.d->deltaT,want,"the stepper is given the time to cover");
    sr_eq(m.getTime(),t1,"time after the step"); sr_eq(m.getDtDid(),dt,"step size");
    auto res=m.stream(os,6); eq(s->seen,smooth(x),"state after the step"); sr_eq(s->at,t1,"streamed at the current time");
    auto& av=std::get<1>(res); sr_check(av.size()==2,"averages of the system returned"); sr_eq(av(0),s->seen(0,0).real(),"average"); C o=s->seen(0,1); sr_eq(av(1),o.imag()*o.imag(),"averages processed");
    t0=t1;
  }
}
} // anonymous
SR_SCENARIO(all_super) {evolve<1,EX|HA|LI>(dims<1>({2}),true,2,2);}
SR_SCENARIO(all_jumps) {evolve<1,EX|HA|LI>(dims<1>({2}),false,2,2);}
SR_SCENARIO(no_exact) {evolve<1,HA|LI>(dims<1>({2}),false,2,2);}
SR_SCENARIO(no_hamiltonian) {evolve<1,EX|LI>(dims<1>({2}),true,1,2);}
SR_SCENARIO(no_dissipation) {evolve<1,EX|HA>(dims<1>({3}),true,0,2);}
SR_SCENARIO(exact_only) {evolve<1,EX>(dims<1>({3}),true,0,2);}
SR_SCENARIO(hamiltonian_only) {evolve<1,HA>(dims<1>({3}),true,0,2);}
SR_SCENARIO(three_levels) {evolve<1,HA|LI>(dims<1>({3}),false,2,1);}
SR_SCENARIO(two_subsystems) {evolve<2,EX|HA|LI>(dims<2>({2,2}),false,1,1);}
SR_SCENARIO(two_subsystems_super) {evolve<2,HA|LI>(dims<2>({2,2}),true,2,1);}
SR_SCENARIO(two_unequal_subsystems) {evolve<2,HA>(dims<2>({3,2}),true,0,1); evolve<2,EX>(dims<2>({2,3}),true,0,1);}
// some channels with, some without superoperator
SR_SCENARIO(mixed_channels) {
  struct Li : TLi<1> {void actWithSuperoperator_v(double t, const CArray<2>& rho, CArray<2>& drhodt, size_t k) const override {if (k==1) throw structure::SuperoperatorNotImplementedException(k); auto a=arr2<1>(this->p_li->S(k,t,mat<1>(rho)),this->p_li->d); drhodt+=a;}};
  struct Sy : QS<1>, Li {Sy(Dyn<1>::P p) : QS<1>(p->d) {this->set_li(p);}};
  auto p=std::make_shared<Dyn<1>>(dims<1>({2}),"s",3,0); auto s=std::make_shared<Sy>(p); Engine<1> e; std::ostringstream os; M rho0=hsym(2,"rho"), at=hsym(2,"x"); double t=sr_var("t"); sr_assume_lt(0,tr(rho0).real());
  quantumtrajectory::Master<1,Engine<1>> m(structure::QuantumSystemPtr<1>(s),dop<1>(rho0,p->d),e,0);
  e.d->act=[&](CArray<2>&, double&) {M j=p->J(1,t); eq(e.d->derivative(at,t),p->S(0,t,at)+j*at*dag(j)+p->S(2,t,at),"each channel by its own means");};
  m.step(1.,os);
}
// a state vector serves as initial condition as well
SR_SCENARIO(from_state_vector) {
  auto p=std::make_shared<Dyn<1>>(dims<1>({3}),"s",0,0); auto s=std::make_shared<S<1,HA>>(p); V psi=vsym(3,"psi"); std::ostringstream os;
  quantumtrajectory::Master<1,Engine<1>> m(structure::QuantumSystemPtr<1>(s),sv<1>(psi,p->d),Engine<1>{},0); m.stream(os,6); eq(s->seen,dyad(psi,psi),"dyad of the state vector");
}
SR_SCENARIO(refusals) {
  auto p=std::make_shared<Dyn<1>>(dims<1>({3}),"s",0,0); auto s=std::make_shared<S<1,EX>>(p), h=s; bool thrown=false;
  try {quantumtrajectory::Master<1,Engine<1>> m(structure::QuantumSystemPtr<1>(s),dop<1>(hsym(2,"r"),dims<1>({2})),Engine<1>{},0);} catch (const DimensionalityMismatchException&) {thrown=true;}
  sr_check(thrown,"dimension mismatch refused");
  thrown=false; p->master=false;
  try {quantumtrajectory::Master<1,Engine<1>> m(structure::QuantumSystemPtr<1>(s),dop<1>(hsym(3,"q"),p->d),Engine<1>{},0);} catch (const quantumtrajectory::master::SystemNotApplicable&) {thrown=true;}
  sr_check(thrown,"inapplicable system refused");
}
// what the stepper integrates keeps the trace and the Hermiticity: real elements in the Schroedinger picture
namespace {
template<int R> void conserves(structure::QuantumSystemPtr<R> s, const Dims<R>& d, int nSteps=1) {
  Engine<R> e; int n=total<R>(d); std::ostringstream os; M rho0=hsym(n,"rho"), at=hsym(n,"x"); double t=sr_var("t"); sr_assume_lt(0,tr(rho0).real());
  quantumtrajectory::Master<R,Engine<R>> m(s,dop<R>(rho0,d),e,0);
  e.d->act=[&](CArray<2*R>&, double&) {M f=e.d->derivative(at,t); sr_eq(tr(f),C(0),"trace conserved"); eq(f,dag(f),"Hermiticity conserved");};
  m.step(1.,os);
}
}
SR_SCENARIO(qbit_conserves) {
  parameters::Table t; qbit::ParsPumpedLossy p(t); p.delta=sr_var("delta"); p.eta=sr_cvar("eta"); p.gamma=sr_pos("gamma");
  conserves<1>(std::make_shared<PumpedLossyQbitSch>(p),dims<1>({2}));
}
SR_SCENARIO(mode_conserves) {
  parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=4; p.delta=sr_var("delta"); p.eta=sr_cvar("eta"); p.kappa=sr_pos("kappa");
  conserves<1>(std::make_shared<PumpedLossyModeSch<false>>(p),dims<1>({4}));
}
