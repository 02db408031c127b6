// Saving and restoring the state of trajectories
#include "../common/mcwf.h"
#include "Master.h"
#include "Simulated.h"
using namespace qh;
namespace {
namespace tr_=cppqedutils::trajectory;
template<typename T> std::shared_ptr<std::stringstream> save(T& t) {auto s=std::make_shared<std::stringstream>(std::ios::in|std::ios::out|std::ios::binary); tr_::writeViaSStream(t,std::shared_ptr<std::ostream>(s)); return s;}
template<typename T> bool load(T& t, std::shared_ptr<std::stringstream> s) {
  try {tr_::readViaSStream(t,std::shared_ptr<std::istream>(s));} catch (const std::runtime_error&) {return false;}
  sr_check((s->peek(),s->eof()),"the whole record is consumed"); return true;
}
template<typename ARR> std::shared_ptr<std::stringstream> arrayOnly(const ARR& a) {
  auto s=std::make_shared<std::stringstream>(std::ios::in|std::ios::out|std::ios::binary); std::ostringstream o(std::ios::binary); {cppqedutils::oarchive ar(o); tr_::SerializationMetadata m("CArray",tr_::SerializationMetadata::ARRAY_ONLY,ARR::rank_); ar & m & a;} string b=o.str(); (*s)<<b.size(); s->write(b.data(),b.size()); return s;
}
// any controlled ODE stepper
struct Hist {vector<double> dt; vector<vector<C>> state; vector<double> time; string n; bool reject=false;};
Hist* hist=nullptr;
template<typename ARR> struct AnyStepper {
  using time_type=double;
  template<typename SYS> auto try_step(SYS sys, ARR& x, double& t, double& dt) {
    hist->dt.push_back(dt); hist->time.push_back(t); vector<C> v; for (auto i=x.begin();i!=x.end();++i) v.push_back(C(*i)); hist->state.push_back(v); ARR f(x.shape()); f=0; sys(x,f,t);
    if (hist->reject) {hist->reject=false; dt=dt/2; return boost::numeric::odeint::fail;}
    int j=0; string n=hist->n+std::to_string(hist->dt.size()); for (auto& y : x) {if constexpr (std::is_same_v<typename ARR::T_numtype,double>) y=sr_var((n+"_"+std::to_string(j++)).c_str()); else y=sr_cvar(n+"_"+std::to_string(j++));}
    t+=dt; dt=sr_pos((n+"next").c_str()); return boost::numeric::odeint::success;
  }
};
} // anonymous
template<typename ARR> struct cppqedutils::ode_engine::MakeControlledErrorStepper<AnyStepper<ARR>> {
  static auto _(double a, double b) {return ControlledErrorStepperWithParameters<AnyStepper<ARR>>{AnyStepper<ARR>{},a,b};}
};
namespace {
template<typename S> vector<C> stateOf(const S& s) {std::ostringstream os; auto r=s.stream(os,6); vector<C> v; auto& a=std::get<1>(r); for (auto i=a.begin();i!=a.end();++i) v.push_back(C(*i)); return v;}
// a simulation continued from an archive is the simulation continued without interruption
template<typename ARR> void simRound(ARR a, ARR b) {
  using E=cppqedutils::ode_engine::Base<AnyStepper<ARR>>; using T=typename ARR::T_numtype; auto fill=[](ARR& x, const string& n) {int j=0; for (auto& y : x) {if constexpr (std::is_same_v<T,double>) y=sr_var((n+std::to_string(j++)).c_str()); else y=sr_cvar(n+std::to_string(j++));}};
  fill(a,"a"); fill(b,"b"); auto der=[](const ARR& x, ARR& f, double t) {f=t*x;};
  Hist h1, h2; h1.n="p"; h2.n="q"; std::ostringstream os; double i1=sr_pos("i1"), i2=sr_pos("i2");
  auto A=cppqedutils::simulated::make<E>(a,der,{},i1,1,1.,1.); auto B=cppqedutils::simulated::make<E>(b,der,{},i2,1,1.,1.);
  hist=&h1; h1.reject=sr_choice(2,"reject"); double w=sr_pos("w"); A.step(w,os); hist=&h2; h2.reject=sr_choice(2,"reject2"); B.step(sr_pos("v"),os);
  auto s=save(A); sr_check(load(B,s),"archive accepted");
  sr_eq(B.getTime(),A.getTime(),"time restored"); sr_eq(B.getDtDid(),A.getDtDid(),"step size restored"); qh::eq(stateOf(B),stateOf(A),"state restored");
  std::ostringstream o1, o2; A.logOnEnd(o1); B.logOnEnd(o2); sr_check(o1.str()==o2.str(),"statistics of the stepper restored");
  double u=sr_pos("u"); hist=&h1; size_t n1=h1.dt.size(); A.step(u,os); hist=&h2; size_t n2=h2.dt.size(); B.step(u,os);
  sr_eq(h2.dt[n2],h1.dt[n1],"the next step is tried with the same size"); sr_eq(h2.time[n2],h1.time[n1],"the next step begins at the same time"); qh::eq(h2.state[n2],h1.state[n1],"the next step begins from the same state"); sr_eq(B.getTime(),A.getTime(),"time after the next step");
}
} // anonymous
SR_SCENARIO(simulated_real) {simRound(DArray<1>(2),DArray<1>(2));}
SR_SCENARIO(simulated_complex) {simRound(CArray<1>(2),CArray<1>(2));}
SR_SCENARIO(simulated_array_only) {
  using E=cppqedutils::ode_engine::Base<AnyStepper<CArray<1>>>; Hist h; h.n="p"; hist=&h; std::ostringstream os; CArray<1> a(2), b(2); V x=vsym(2,"x"), y=vsym(2,"y"); for (int i=0;i<2;++i) {a(i)=x[i]; b(i)=y[i];}
  auto A=cppqedutils::simulated::make<E>(a,[](const CArray<1>& x, CArray<1>& f, double t) {f=t*x;},{},1.,1,1.,1.); A.step(sr_pos("w"),os); double t=A.getTime(), d=A.getDtDid();
  sr_check(load(A,arrayOnly(b)),"array accepted"); qh::eq(stateOf(A),y,"state taken from the array"); sr_eq(A.getTime(),t,"time not affected"); sr_eq(A.getDtDid(),d,"step size not affected");
}

namespace {
// ---- master equation
template<int R> struct MEngine {
  struct Data {double dtDid=0, dtTry=1; int steps=0; std::function<M(M,double)> derivative; std::function<void(CArray<2*R>&,double&)> act;};
  std::shared_ptr<Data> d=std::make_shared<Data>();
  template<typename SYS> void step(double, std::ostream&, SYS sys, double& t, CArray<2*R>& a) {
    Dims<R> dd; for (int i=0;i<R;++i) dd(i)=a.extent(i); ++d->steps;
    d->derivative=[sys,dd](M m, double tt) {CArray<2*R> y(arr2<R>(m,dd)), f(y.shape()); f=0; sys(y,f,tt); return mat<R>(f);}; d->act(a,t);
  }
  double getDtDid() const {return d->dtDid;} double getDtTry() const {return d->dtTry;} void setDtDid(double x) {d->dtDid=x;} void setDtTry(double x) {d->dtTry=x;}
  std::ostream& streamParameters(std::ostream& os) const {return os;} std::ostream& logOnEnd(std::ostream& os) const {return os;}
  template<typename A> A& stateIO(A& ar) {return ar & d->dtDid & d->dtTry;}
};
template<int R> using Ma=quantumtrajectory::Master<R,MEngine<R>>;
M smooth(const M& x) {M h=x+dag(x); double s=tr(h).real(); return C(1/s)*h;}
template<int R, int MASK> void master(const Dims<R>& d) {
  auto p=std::make_shared<Dyn<R>>(d,"s",1,0); p->superop=true; auto s=std::make_shared<TElem<R,MASK,QS<R>>>(p,p->d); int n=p->n; std::ostringstream os; MEngine<R> e1, e2;
  M r1=hsym(n,"r"), r2=hsym(n,"s"); sr_assume_lt(0,tr(r1).real()); sr_assume_lt(0,tr(r2).real());
  Ma<R> A(structure::QuantumSystemPtr<R>(s),dop<R>(r1,d),e1,0), B(structure::QuantumSystemPtr<R>(s),dop<R>(r2,d),e2,0);
  M y1=hsym(n,"y"), y2=hsym(n,"z"); double dt1=sr_pos("dt"), dt2=sr_pos("du"), next1=sr_pos("next");
  auto norm=[&](const M& y, double dt) {M u=p->U(dt,0); M x=(MASK&EX) ? u*y*dag(u) : y; sr_assume_lt(0,tr(x).real()); return smooth(x);}; M x1=norm(y1,dt1); norm(y2,dt2);
  auto act=[&](MEngine<R>& e, const M& y, double dt, double next) {return [&e,y,dt,next,d](CArray<2*R>& a, double& t) {CArray<2*R> b(arr2<R>(y,d)); a=b; t+=dt; e.d->dtDid=dt; e.d->dtTry=next;};};
  e1.d->act=act(e1,y1,dt1,next1); A.step(9.,os); e2.d->act=act(e2,y2,dt2,3.); B.step(9.,os);
  auto st=save(A); sr_check(load(B,st),"archive accepted"); sr_eq(B.getTime(),dt1,"time restored"); sr_eq(B.getDtDid(),dt1,"step size restored"); sr_eq(e2.d->dtTry,next1,"next step size restored");
  M at=hsym(n,"at"); double ta=sr_var("ta"); bool called=false; M seen;
  e2.d->act=[&](CArray<2*R>& a, double& t) {called=true; seen=mat<R>(a); eq(seen,x1,"the next step begins from the saved state"); sr_eq(t,dt1,"the next step begins at the saved time");
    M ref(n); if (MASK&HA) {M x=p->H(ta,dt1)*at; ref=x+dag(x);} if (MASK&LI) ref=ref+p->S(0,ta,at); eq(e2.d->derivative(at,ta),ref,"interaction picture restarts at the saved time"); throw 1;};
  try {B.step(9.,os);} catch (int) {} sr_check(called,"continues");
}
} // anonymous
SR_SCENARIO(master_all) {master<1,EX|HA|LI>(dims<1>({2}));}
SR_SCENARIO(master_no_exact) {master<1,HA|LI>(dims<1>({2}));}
SR_SCENARIO(master_two_subsystems) {master<2,HA>(dims<2>({2,1}));}

namespace {
// ---- quantum trajectories
template<int R, int MASK> void trajRound(const Dims<R>& d) {
  auto p=std::make_shared<Dyn<R>>(d,"s",1,0); auto s=std::make_shared<MS<R,MASK>>(p); Rng::us.clear(); Stepper<R> e1, e2; std::ostringstream os; int n=p->n; if (!(MASK&EX)) p->h2=M(n);
  if constexpr (MASK&LI) s->rates_->onRates=[&](double, const vector<double>& g, const M&) {sr_assume_lt(g[0],1.);};
  V psi1=vsym(n,"a"), psi2=vsym(n,"b"); e1.d->dtTry=.001; e2.d->dtTry=.002; double dp=.01;
  sr_assume_lt(0,norm2(psi1)); sr_assume_lt(0,norm2(psi2));
  Traj<R> A(structure::QuantumSystemPtr<R>(s),sv<R>(psi1,d),e1,randomutils::EngineWithParameters<Rng>(1,2),dp,10.,1), B(structure::QuantumSystemPtr<R>(s),sv<R>(psi2,d),e2,randomutils::EngineWithParameters<Rng>(3,4),dp,10.,1);
  V y1=vsym(n,"y"); double dt1=sr_pos("dt"); sr_assume_lt(dt1,.005); V x1=(MASK&EX) ? p->U(dt1,0)*y1 : y1; sr_assume_lt(0,norm2(x1));
  e1.d->act=[&](CArray<R>& a, double& t) {CArray<R> b(arr<R>(y1,d)); a=b; t+=dt1; e1.d->dtDid=dt1; e1.d->dtTry=.003;};
  bool jump=false; if (MASK&LI) {jump=sr_choice(2,"jump");}
  A.step(9.,os); if constexpr (MASK&LI) {double pr=s->rates_->given.back()[0]*dt1; sr_assume_lt(0,Rng::us.back()); if (jump) sr_assume_lt(Rng::us.back(),pr); else sr_assume_lt(pr,Rng::us.back());}
  V x=state<R>(A); double t=A.getTime(); auto st=save(A); sr_check(load(B,st),"archive accepted");
  sr_eq(B.getTime(),t,"time restored"); sr_eq(t,dt1,"time"); sr_eq(B.getDtDid(),dt1,"step size restored"); sr_eq(e2.d->dtTry,e1.d->dtTry,"next step size restored"); eq(state<R>(B),x,"state restored");
  auto& l1=A.getLogger().getTrajectory(); auto& l2=B.getLogger().getTrajectory(); sr_check(l1.size()==l2.size() && l1.size()==(jump ? 1 : 0),"history of the jumps restored"); auto i=l1.begin(); auto j=l2.begin(); for (;i!=l1.end() && j!=l2.end();++i,++j) {sr_eq(i->first,j->first,"time of the jump restored"); sr_check(i->second==j->second,"kind of the jump restored");}
  std::ostringstream o1, o2; A.logOnEnd(o1); B.logOnEnd(o2); sr_check(o1.str()==o2.str(),"statistics restored");
  // what it draws from the generator
  int nDrawn=Rng::us.size(); (void)nDrawn; B.sampleRandom(); auto s2=save(B), s1=(A.sampleRandom(),save(A)); sr_check(s1->str().size()==s2->str().size(),"state of the random-number generator restored");
  V at=vsym(n,"at"); double ta=sr_var("ta"); bool called=false;
  e2.d->act=[&](CArray<R>& a, double& tt) {called=true; eq(vec<R>(a),x,"the next step begins from the saved state"); sr_eq(tt,dt1,"the next step begins at the saved time"); eq(e2.d->derivative(at,ta),p->H(ta,(MASK&EX) ? dt1 : (tt,dt1))*at,"interaction picture restarts at the saved time"); throw 1;};
  if (MASK&HA) {try {B.step(9.,os);} catch (int) {} sr_check(called,"continues");}
}
// the generator itself
struct Peek {int drawn; unsigned long s,p;};
} // anonymous
SR_SCENARIO(trajectory_all) {trajRound<1,EX|HA|LI>(dims<1>({2}));}
SR_SCENARIO(trajectory_coherent) {trajRound<1,EX|HA>(dims<1>({2}));}
SR_SCENARIO(trajectory_two_subsystems) {trajRound<2,EX|HA>(dims<2>({2,1}));}
SR_SCENARIO(trajectory_no_exact) {trajRound<1,HA|LI>(dims<1>({2}));}
SR_SCENARIO(trajectory_Hamiltonian) {trajRound<1,HA>(dims<1>({2}));}
SR_SCENARIO(trajectory_generator) {
  auto p=std::make_shared<Dyn<1>>(dims<1>({2}),"s",0,0); auto s=std::make_shared<MS<1,HA>>(p); Rng::us.clear(); Stepper<1> e1,e2;
  V psi=vsym(2,"a"); using EP=randomutils::EngineWithParameters<Rng>;
  Traj<1> A(structure::QuantumSystemPtr<1>(s),sv<1>(psi,p->d),e1,EP(1,2),.01,10.,0), B(structure::QuantumSystemPtr<1>(s),sv<1>(psi,p->d),e2,EP(3,4),.01,10.,0);
  int k=sr_choice(3,"drawn"); for (int i=0;i<k;++i) A.sampleRandom(); auto a=save(A); string before=a->str(); sr_check(load(B,a),"archive accepted"); sr_check(save(B)->str()==before,"a restored trajectory saves the same, including its generator"); A.sampleRandom(); sr_check(save(A)->str()!=before,"the archive depends on the numbers drawn"); B.sampleRandom(); sr_check(save(A)->str()==save(B)->str(),"the generators proceed alike");
}
SR_SCENARIO(array_only) {
  auto p=std::make_shared<Dyn<1>>(dims<1>({2}),"s",0,0); auto s=std::make_shared<MS<1,HA>>(p); Rng::us.clear(); Stepper<1> e; std::ostringstream os;
  V psi=vsym(2,"a"), chi=vsym(2,"c"); Traj<1> A(structure::QuantumSystemPtr<1>(s),sv<1>(psi,p->d),e,randomutils::EngineWithParameters<Rng>(1,2),.01,10.,0); double dt=sr_pos("dt"); V y=vsym(2,"y"); sr_assume_lt(0,norm2(y));
  e.d->act=[&](CArray<1>& a, double& t) {CArray<1> b(arr<1>(y,p->d)); a=b; t+=dt; e.d->dtDid=dt;}; A.step(9.,os);
  sr_check(load(A,arrayOnly(arr<1>(chi,p->d))),"array accepted"); eq(state<1>(A),chi,"state taken from the array"); sr_eq(A.getTime(),dt,"time not affected");
  M rho=hsym(2,"r"), sigma=hsym(2,"s"); sr_assume_lt(0,tr(sigma).real()); MEngine<1> me; Ma<1> B(structure::QuantumSystemPtr<1>(s),dop<1>(rho,p->d),me,0); sr_check(load(B,arrayOnly(arr2<1>(sigma,p->d))),"array accepted"); M seen; me.d->act=[&](CArray<2>& a, double& t) {seen=mat<1>(a); throw 1;}; try {B.step(1.,os);} catch (int) {} eq(seen,sigma,"state taken from the array");
}
// archives of something else are refused
SR_SCENARIO(mismatch) {
  std::ostringstream os; auto p=std::make_shared<Dyn<1>>(dims<1>({2}),"s",0,0); auto s=std::make_shared<MS<1,HA>>(p); auto p2=std::make_shared<Dyn<2>>(dims<2>({2,1}),"z",0,0); auto s2=std::make_shared<MS<2,HA>>(p2); Rng::us.clear(); Stepper<1> e; Stepper<2> e2; MEngine<1> me; MEngine<2> me2; V psi=vsym(2,"a"); M rho=hsym(2,"r");
  using EP=randomutils::EngineWithParameters<Rng>; using SE=cppqedutils::ode_engine::Base<AnyStepper<CArray<1>>>; using DE=cppqedutils::ode_engine::Base<AnyStepper<DArray<1>>>; using S2=cppqedutils::ode_engine::Base<AnyStepper<CArray<2>>>;
  Traj<1> t1(structure::QuantumSystemPtr<1>(s),sv<1>(psi,p->d),e,EP(1,2),.01,10.,0); Traj<2> t2(structure::QuantumSystemPtr<2>(s2),sv<2>(psi,p2->d),e2,EP(1,2),.01,10.,0); Ma<1> m1(structure::QuantumSystemPtr<1>(s),dop<1>(rho,p->d),me,0); Ma<2> m2(structure::QuantumSystemPtr<2>(s2),dop<2>(rho,p2->d),me2,0);
  auto c1=cppqedutils::simulated::make<SE>(CArray<1>(arr<1>(psi,p->d)),[](const CArray<1>&, CArray<1>&, double) {},{},1.,0,1.,1.); DArray<1> da(2); da=1; auto d1=cppqedutils::simulated::make<DE>(da,[](const DArray<1>&, DArray<1>&, double) {},{},1.,0,1.,1.); CArray<2> ca(2,1); ca=1; auto c2=cppqedutils::simulated::make<S2>(ca,[](const CArray<2>&, CArray<2>&, double) {},{},1.,0,1.,1.);
  int from=sr_choice(7,"from"), to=sr_choice(7,"to"); std::shared_ptr<std::stringstream> a; bool ok=false;
  switch (from) {case 0: a=save(t1); break; case 1: a=save(t2); break; case 2: a=save(m1); break; case 3: a=save(m2); break; case 4: a=save(c1); break; case 5: a=save(d1); break; case 6: a=save(c2);}
  switch (to) {case 0: ok=load(t1,a); break; case 1: ok=load(t2,a); break; case 2: ok=load(m1,a); break; case 3: ok=load(m2,a); break; case 4: ok=load(c1,a); break; case 5: ok=load(d1,a); break; case 6: ok=load(c2,a);}
  sr_check(ok==(from==to),"only archives of the same kind, type and rank are accepted"); eq(state<1>(t1),psi,"refused archive leaves the state alone"); eq(stateOf(c1),psi,"refused archive leaves the state alone");
}
