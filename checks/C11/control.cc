// Control of the jump probability per step in Monte Carlo wave-function trajectories: rejected tries, size of the next try
#include "../common/mcwf.h"
using namespace qh;
namespace {
template<int MASK> struct Run {
  Dyn<1>::P p; std::shared_ptr<MS<1,MASK>> s; Stepper<1> e; double dpLimit, tol, dtInit; V psi0; std::unique_ptr<Traj<1>> m; std::ostringstream os; double t=0, t0=0, lastDid=0;
  int maxTries;
  Run(int nJ, int mt, bool easy=false) : p(std::make_shared<Dyn<1>>(dims<1>({2}),"s",nJ,0)), maxTries(mt) {
    if (!(MASK&EX)) p->h2=M(p->n);
    s=std::make_shared<MS<1,MASK>>(p); Rng::us.clear();
    dpLimit=sr_pos("dpLimit"); tol=sr_var("overshootTolerance"); sr_assume_le(1.,tol); psi0=V{C(sr_pos("psi")),C(0)}; e.d->dtTry=dtInit=sr_pos("dtTry");
    s->rates_->onRates=[&](double, const vector<double>& g, const M&) {sr_assume_lt(0,sum(g)); if (easy) sr_assume_lt(sum(g)*dtInit,dpLimit);};
    m=std::make_unique<Traj<1>>(structure::QuantumSystemPtr<1>(s),sv<1>(psi0,p->d),e,randomutils::EngineWithParameters<Rng>(1,2),dpLimit,tol,0);
    double lim=dpLimit/sum(s->rates_->given[0]); double first=e.d->dtTry;
    sr_check(s->rates_->given.size()==1,"rates are asked for at startup"); eq(s->rates_->state[0],dyad(psi0,psi0),"rates of the initial state"); sr_eq(s->rates_->at[0],0.,"at the initial time");
    sr_le(first,lim,"first try within the limit"); if (MASK&HA) {sr_le(first,dtInit,"first try not larger than proposed"); sr_eq((first-dtInit)*(first-lim),0.,"first try");} else sr_eq(first,lim,"first try governed by the rates");
  }
  static double sum(const vector<double>& g) {double r=0; for (double x : g) r+=x; return r;}
  void step(int k, bool easy=false) {
    string l=std::to_string(k); V before=state<1>(*m); double want=sr_pos(("want"+l).c_str()); auto& r=*s->rates_; size_t calls=r.given.size(), drawn=Rng::us.size();
    vector<double> dts, nexts; vector<V> xs; double tryBefore=e.d->dtTry; double next=0;
    auto begin=[&](int i) { // every try begins from where the step began
      sr_check(i<maxTries,"accepted in time");
      sr_eq(e.d->dtDid,lastDid,"try begins with the previous step size");
      if (i) sr_eq(e.d->dtTry,dpLimit/sum(r.given[calls+i-1]),"size of the new try"); else sr_eq(e.d->dtTry,tryBefore,"size of the first try");
    };
    e.d->act=[&](CArray<1>& a, double& tt) {
      int i=dts.size(); string q=l+"_"+std::to_string(i); begin(i); sr_eq(e.d->deltaT,want,"the stepper is given the time to cover");
      eq(vec<1>(a),before,"try begins from the same state"); sr_eq(tt,t,"try begins from the same time");
      V at=V{sr_cvar("x"+q),C(1)}; double ta=sr_var(("ta"+q).c_str()); eq(e.d->derivative(at,ta),p->H(ta,t0)*at,"derivative");
      V after{C(sr_pos(("y"+q).c_str())),C(0)}; double dt=sr_pos(("dt"+q).c_str()); next=sr_pos(("next"+q).c_str()); sr_assume_le(dt,e.d->dtTry); sr_assume_le(dt,want);
      CArray<1> b(arr<1>(after,p->d)); a=b; tt+=dt; e.d->dtDid=dt; e.d->dtTry=next; dts.push_back(dt); nexts.push_back(next);
      V x=(MASK&EX) ? p->U(t+dt,t0)*after : after; sr_assume_lt(0,norm2(x)); sr_assume_lt(norm2(x),1.); xs.push_back(normalised(x));
    };
    r.onRates=[&](double tt, const vector<double>& g, const M& mm) {
      int i=r.given.size()-calls-1; sr_assume_lt(0,sum(g));
      if (!(MASK&HA)) {
        // no stepper: the size of the try is that allowed by the rates, or what is left to cover
        sr_check(i<maxTries,"accepted in time"); double dt=i ? dpLimit/sum(r.given[calls+i-1]) : tryBefore; if (want<dt) dt=want; dts.push_back(dt);
        V x=(MASK&EX) ? p->U(t+dt,t0)*before : before; xs.push_back(normalised(x)); sr_eq(e.d->dtDid,dt,"step size while dissipation alone governs it");
      }
      sr_check(int(dts.size())==i+1,"rates once per try"); if (i>=int(dts.size())) return;
      sr_eq(tt,t+dts[i],"rates at the time reached"); eq(mm,dyad(xs[i],xs[i]),"rates in the state reached");
      if (i==maxTries-1) sr_assume_le(sum(g)*dts[i],tol*dpLimit);
      if (easy) sr_assume_lt(sum(g)*e.d->dtTry,dpLimit);
    };
    m->step(want,os);
    if (easy) sr_assume_lt(sum(r.given.back())*dts.back(),Rng::us.back());
    int n=dts.size(); sr_check(n>=1 && int(r.given.size())==int(calls)+n,"rates once per try"); double dt=dts.back(); auto& g=r.given.back(); double lim=dpLimit/sum(g);
    for (int i=0;i+1<n;++i) sr_lt(tol*dpLimit,sum(r.given[calls+i])*dts[i],"only tries beyond the tolerance are rejected");
    sr_le(sum(g)*dt,tol*dpLimit,"the accepted step is within the tolerance");
    sr_eq(m->getTime(),t+dt,"time after the step"); sr_eq(m->getDtDid(),dt,"step size");
    double now=e.d->dtTry; sr_le(now,lim,"next try within the limit"); if (MASK&HA) {sr_le(now,next,"next try not larger than proposed"); sr_eq((now-next)*(now-lim),0.,"next try");} else sr_eq(now,lim,"next try governed by the rates");
    sr_check(Rng::us.size()==drawn+1,"one random number per accepted step");
    double u=Rng::us.back(); if (u>sum(g)*dt) eq(state<1>(*m),xs.back(),"state of the accepted try"); else if (u>0 && u<g[0]*dt) eq(state<1>(*m),scale(1/sqrt(g[0]),p->J(0,t+dt)*xs.back()),"jump in the state of the accepted try");
    t+=dt; if (MASK&EX) t0=t; lastDid=dt;
  }
};
} // anonymous
SR_SCENARIO(all_retries) {Run<EX|HA|LI> r(1,3); r.step(0);}
SR_SCENARIO(two_channels) {Run<EX|HA|LI> r(2,2); r.step(0);}
SR_SCENARIO(second_step) {Run<EX|HA|LI> r(1,1,true); r.step(0,true); r.maxTries=2; r.step(1);}
SR_SCENARIO(second_step_no_exact) {Run<HA|LI> r(1,1,true); r.step(0,true); r.maxTries=2; r.step(1);}
SR_SCENARIO(no_exact) {Run<HA|LI> r(2,2); r.step(0);}
SR_SCENARIO(dissipation_only) {Run<LI> r(1,2); r.step(0);}
SR_SCENARIO(no_hamiltonian) {Run<EX|LI> r(1,2); r.step(0);}
// no jump channel is ever active: nothing limits the step
SR_SCENARIO(zero_rates) {
  auto p=std::make_shared<Dyn<1>>(dims<1>({2}),"s",1,0); auto s=std::make_shared<MS<1,HA|LI>>(p); p->h2=M(2); p->j0[0]=p->j1[0]=M(2); s->rates_->consistent=true; Rng::us.clear(); Stepper<1> e; double init=e.d->dtTry=sr_pos("dtTry"); std::ostringstream os;
  Traj<1> m(structure::QuantumSystemPtr<1>(s),sv<1>(V{C(1),C(0)},p->d),e,randomutils::EngineWithParameters<Rng>(1,2),.01,10.,0);
  sr_eq(e.d->dtTry,init,"first try as proposed");
  double next=sr_pos("next"), dt=sr_pos("dt"); V after{C(sr_pos("y")),sr_cvar("z")};
  e.d->act=[&](CArray<1>& a, double& tt) {CArray<1> b(arr<1>(after,p->d)); a=b; tt+=dt; e.d->dtDid=dt; e.d->dtTry=next;};
  m.step(1.,os); sr_eq(e.d->dtTry,next,"next try as proposed"); sr_eq(m.getTime(),dt,"step taken"); if (Rng::us.size() && Rng::us[0]>0) eq(state<1>(m),normalised(after),"no jump");
}
// channels whose rate is got from the jumped state: after a rejected try, both rate and jumped state are those of the new one
SR_SCENARIO(rejected_alternative_channel) {
  bool other=sr_choice(2,"ordinary channel besides"); auto p=std::make_shared<Dyn<1>>(dims<1>({2}),"s",other?2:1,0); auto s=std::make_shared<MS<1,HA|LI>>(p); p->h2=M(2); for (auto& j : p->j0) j=M(2); for (auto& j : p->j1) j=M(2);
  double a=sr_pos("a"), b=sr_pos("b"); int k=other; p->j0[k](0,1)=a; p->j0[k](1,0)=b; s->rates_->special[k]=true; if (other) {s->rates_->fixed=0; p->j0[0](1,1)=1;}
  Rng::us.clear(); Stepper<1> e; e.d->dtTry=sr_pos("dtTry"); std::ostringstream os; double dpLimit=sr_pos("dpLimit"), tol=sr_var("tol"); sr_assume_le(1.,tol); V psi0{C(sr_pos("psi")),C(0)};
  Traj<1> m(structure::QuantumSystemPtr<1>(s),sv<1>(psi0,p->d),e,randomutils::EngineWithParameters<Rng>(1,2),dpLimit,tol,0);
  vector<double> dts; double next=0;
  e.d->act=[&](CArray<1>& x, double& tt) {
    int i=dts.size(); string q=std::to_string(i); sr_check(i<2,"accepted in time"); if (i>=2) throw std::runtime_error("not accepted"); eq(vec<1>(x),psi0,"try begins from the same state"); sr_eq(tt,0.,"try begins from the same time");
    double dt=sr_pos(("dt"+q).c_str()), y=sr_pos(("y"+q).c_str()); sr_assume_lt(y,1.); next=sr_pos(("next"+q).c_str()); if (i) {sr_eq(e.d->dtTry,dpLimit/(a*a),"size of the new try"); sr_assume_lt(b*b*dt,tol*dpLimit); sr_assume_lt(b*b*next,dpLimit);} else {sr_assume_lt(tol*dpLimit,a*a*dt);}
    V after=i ? V{C(y),C(0)} : V{C(0),C(y)}; CArray<1> c(arr<1>(after,p->d)); x=c; tt+=dt; e.d->dtDid=dt; e.d->dtTry=next; dts.push_back(dt);
  };
  m.step(sr_pos("want"),os); sr_check(dts.size()==2,"the first try is rejected"); if (dts.size()<2) return; sr_eq(m.getTime(),dts[1],"time after the step"); sr_eq(e.d->dtTry,next,"next try as proposed");
  double u=Rng::us.back(); if (u>b*b*dts[1]) eq(state<1>(m),V{C(1),C(0)},"state of the accepted try"); else if (u>0 && u<b*b*dts[1]) eq(state<1>(m),V{C(0),C(1)},"jump out of the state of the accepted try");
}
