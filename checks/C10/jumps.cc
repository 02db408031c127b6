// One step of a Monte Carlo wave-function trajectory: no-jump evolution, choice of the jump, state after the jump
#include "../common/mcwf.h"
using namespace qh;
namespace {
template<int R, int MASK> struct Run {
  typename Dyn<R>::P p; std::shared_ptr<MS<R,MASK>> s; Stepper<R> e; double dpLimit, tol; V psi0; std::unique_ptr<Traj<R>> m; std::ostringstream os; double t=0, t0=0;
  Run(const Dims<R>& d, int nJ, vector<bool> special={}, bool consistent=false, bool simple=false) : p(std::make_shared<Dyn<R>>(d,"s",nJ,1)), simple_(simple) {
    if (!(MASK&EX)) p->h2=M(p->n);
    s=std::make_shared<MS<R,MASK>>(p); Rng::us.clear();
    if constexpr (bool(MASK&LI)) {if (special.size()) s->rates_->special=special; s->rates_->consistent=consistent;}
    dpLimit=sr_pos("dpLimit"); tol=sr_var("overshootTolerance"); sr_assume_le(1.,tol); psi0=vsym(p->n,"psi"); if (consistent || special.size()) psi0[1]=sr_pos("psiz"); sr_assume_lt(0,norm2(psi0)); e.d->dtTry=sr_pos("dtTry"); sr_assume_le(e.d->dtTry,1.);
    if constexpr (bool(MASK&LI)) s->rates_->onRates=[&](double tt, const vector<double>& g, const M& m) {double sum=0; for (size_t j=0;j<g.size();++j) {M J=p->J(j,tt); sum+=s->rates_->special[j] ? tr(dag(J)*J*m).real() : g[j];} sr_assume_lt(0,sum); sr_assume_lt(sum*e.d->dtTry,dpLimit);};
    if (consistent || special.size()) for (int k=0;k<nJ;++k) { // J_0=a|0><1|, J_1=b|1><1|: the norm of the jumped state is a monomial
      p->j1[k]=M(p->n); p->j0[k]=M(p->n); p->j0[k](k,1)=sr_pos(("a"+std::to_string(k)).c_str()); if (special.size()) p->h2=M(p->n);
    }
    m=std::make_unique<Traj<R>>(structure::QuantumSystemPtr<R>(s),sv<R>(psi0,d),e,randomutils::EngineWithParameters<Rng>(1,2),dpLimit,tol,0);
    eq(state<R>(*m),psi0,"initial state taken over"); sr_eq(m->getTime(),0.,"starts at time zero");
  }
  // no step is rejected: the limit is large enough
  void step(int k) {
    string l=std::to_string(k); int n=p->n; V at=vsym(n,"x"+l), after=vsym(n,"y"+l); double ta=sr_var(("t"+l).c_str()), dt=sr_pos(("dt"+l).c_str()), want=sr_pos(("want"+l).c_str()); V before=state<R>(*m); if (simple_) after=V{C(sr_pos(("z"+l).c_str())),C(0)}; else if (MASK&LI && (s_special() || s_consistent())) after[1]=sr_pos(("z"+l).c_str());
    sr_assume_le(dt,want);
    bool acted=false;
    e.d->act=[&](CArray<R>& a, double& tt) {
      sr_check(!acted,"the first try is accepted"); acted=true;
      eq(vec<R>(a),before,"the step starts from the current state"); sr_eq(tt,t,"the step starts from the current time");
      eq(e.d->derivative(at,ta),p->H(ta,t0)*at,"derivative"); CArray<R> b(arr<R>(after,p->d)); a=b; tt+=dt; e.d->dtDid=dt;
    };
    if (!(MASK&HA)) {after=before; if (MASK&LI) {sr_assume_lt(e.d->dtTry,want); dt=e.d->dtTry;} else dt=want;}
    sr_assume_lt(0,norm2(after));
    double t1=t+dt; V x=(MASK&EX) ? p->U(t1,t0)*after : after; sr_assume_lt(0,norm2(x)); if (MASK&LI) sr_assume_lt(norm2(x),1.); x=normalised(x);
    size_t calls=0, drawn=Rng::us.size();
    if constexpr (bool(MASK&LI)) {
      calls=s->rates_->given.size(); // acceptance of the step is the subject of C11: here, the limit is not exceeded
      s->rates_->onRates=[&](double tt, const vector<double>& g, const M& m) {double sum=0; for (size_t j=0;j<g.size();++j) {M J=p->J(j,tt); sum+=s->rates_->special[j] ? tr(dag(J)*J*m).real() : g[j];} sr_assume_lt(0,sum); sr_assume_lt(sum*dt,tol*dpLimit); sr_assume_lt(sum*e.d->dtTry,dpLimit);};
    }
    m->step(want,os);
    t=t1; if (MASK&EX) t0=t1;
    sr_eq(m->getTime(),t1,"time after the step"); sr_eq(m->getDtDid(),dt,"step size");
    if constexpr (bool(MASK&HA)) sr_check(acted,"coherent evolution by the stepper");
    if constexpr (!bool(MASK&LI)) {sr_check(Rng::us.size()==drawn,"no random number without dissipation"); eq(state<R>(*m),x,"state after the step"); }
    else {
      auto& r=*s->rates_; sr_check(r.given.size()==calls+1,"rates asked for once"); sr_check(Rng::us.size()==drawn+1,"one random number per step");
      sr_eq(r.at[calls],t1,"rates at the time reached"); eq(r.state[calls],dyad(x,x),"rates in the state reached");
      double u=Rng::us[drawn], sum=0; V expect=x; bool jumped=false;
      auto& log=m->getLogger().getTrajectory();
      for (size_t j=0;j<p->j0.size();++j) {
        V jx=p->J(j,t1)*x; double rate=r.special[j] ? norm2(jx) : r.given[calls][j]; double lo=sum; sum+=rate*dt;
        if (u>lo && u<sum) {jumped=true; expect=scale(1/sqrt(rate),jx); sr_check(log.size()>nlog && log.back().second==j,"the jump is logged"); sr_eq(log.back().first,t1,"the jump is logged with its time");}
        else if (u==lo || u==sum) {nlog=log.size(); return;} // boundary: either side will do
      }
      if (!jumped) sr_check(log.size()==nlog,"no jump");
      nlog=log.size();
      eq(state<R>(*m),expect,jumped ? "state after the jump" : "state without jump");
      if (r.consistent) sr_eq(norm2(state<R>(*m)),1.,"norm");
    }
  }
  size_t nlog=0; bool simple_;
  bool s_special() const {if constexpr (bool(MASK&LI)) {for (bool b : s->rates_->special) if (b) return true;} return false;}
  bool s_consistent() const {if constexpr (bool(MASK&LI)) return s->rates_->consistent; return false;}
};
template<int R, int MASK> void one(const Dims<R>& d, int nJ, int nSteps, vector<bool> special={}, bool consistent=false, bool simple=false) {
  Run<R,MASK> r(d,nJ,special,consistent,simple);
  for (int k=0;k<nSteps;++k) r.step(k);
}
} // anonymous
SR_SCENARIO(coherent) {one<1,EX|HA>(dims<1>({3}),0,2);}
SR_SCENARIO(coherent_no_exact) {one<1,HA>(dims<1>({3}),0,2);}
SR_SCENARIO(exact_only) {one<1,EX>(dims<1>({2}),0,2);}
SR_SCENARIO(coherent_two_subsystems) {one<2,EX|HA>(dims<2>({2,2}),0,1);}
SR_SCENARIO(jumps_all) {one<1,EX|HA|LI>(dims<1>({2}),3,1);}
SR_SCENARIO(jumps_no_exact) {one<1,HA|LI>(dims<1>({2}),2,1);}
SR_SCENARIO(jumps_no_hamiltonian) {one<1,EX|LI>(dims<1>({2}),2,1);}
SR_SCENARIO(jumps_only) {one<1,LI>(dims<1>({2}),3,1);}
SR_SCENARIO(jumps_two_steps) {one<1,EX|HA|LI>(dims<1>({2}),1,2,{},false,true);}
SR_SCENARIO(special_first) {one<1,HA|LI>(dims<1>({2}),2,1,{true,false});}
SR_SCENARIO(special_last) {one<1,HA|LI>(dims<1>({2}),2,1,{false,true});}
SR_SCENARIO(special_all) {one<1,HA|LI>(dims<1>({2}),2,1,{true,true});}
SR_SCENARIO(norm) {one<1,HA|LI>(dims<1>({2}),1,1,{},true);}
SR_SCENARIO(two_subsystems) {one<2,HA|LI>(dims<2>({2,2}),1,1);}
SR_SCENARIO(streamed) {
  Run<1,HA|AV> r(dims<1>({3}),0); r.step(0); auto res=r.m->stream(r.os,6); V x=state<1>(*r.m); sr_check(r.p->streamed.size()==1,"streamed once"); double a=r.p->avr(0,r.t,dyad(x,x)); sr_eq(r.p->streamed[0][0],r.p->proc*a,"processed average of the current state"); sr_eq(std::get<1>(res)(0),r.p->proc*a,"returned average");
}
SR_SCENARIO(mismatch) {
  auto p=std::make_shared<Dyn<1>>(dims<1>({3}),"s",0,0); auto s=std::make_shared<MS<1,HA>>(p); bool thrown=false;
  try {Traj<1> m(structure::QuantumSystemPtr<1>(s),sv<1>(vsym(2,"psi"),dims<1>({2})),Stepper<1>{},randomutils::EngineWithParameters<Rng>(1,2),.01,10.,0);} catch (const DimensionalityMismatchException&) {thrown=true;}
  sr_check(thrown,"dimension mismatch refused");
}
