// Ensembles of quantum trajectories and the choice of the method of evolution
#include "../common/mcwf.h"
#include "Master.h"
namespace qh {
// every number drawn is an arbitrary real of [0,1); remembers which generator it came from
struct Drawn {unsigned long seed, stream; double u;};
inline vector<Drawn> drawn;
}
namespace std {template<> inline double generate_canonical<double,numeric_limits<double>::digits,pcg64>(pcg64& r) {string n="u"+std::to_string(qh::drawn.size()); double u=sr_nonneg(n.c_str()); sr_assume_lt(0,u); sr_assume_lt(u,1.); qh::drawn.push_back({r.s,r.p,u}); return u;}}
#include "Evolution_.h"
using namespace qh;
namespace {
// stands for any ODE stepper; each one made is registered
struct Data {int steps=0; double dtInit=0, dtDid=0, dtTry=1, dtNext=1; V start; vector<double> wanted; V leave; double t=0;};
vector<std::shared_ptr<Data>> made; std::function<V(int,int)> leaving; std::function<double(int)> fraction;
template<typename A> struct Eng {
  std::shared_ptr<Data> d=std::make_shared<Data>(); int id=made.size();
  template<typename P> Eng(double dt, const P&) {d->dtInit=dt; made.push_back(d);}
  template<typename SYS> void step(double deltaT, std::ostream&, SYS, double& t, A& a) {
    ++d->steps; d->wanted.push_back(deltaT); V v; for (auto i=a.begin();i!=a.end();++i) v.push_back(*i); if (d->steps==1) d->start=v;
    V y=leaving(id,v.size()); d->leave=y; int k=0; for (auto& x : a) x=y[k++];
    double dt=(d->steps==1 && fraction) ? fraction(id)*deltaT : deltaT; t+=dt; d->dtDid=dt; d->t=t;
  }
  double getDtDid() const {return d->dtDid;} double getDtTry() const {return d->dtTry;} void setDtDid(double x) {d->dtDid=x;} void setDtTry(double x) {d->dtTry=x;}
  std::ostream& streamParameters(std::ostream& os) const {return os;} std::ostream& logOnEnd(std::ostream& os) const {return os;}
  template<typename AR> AR& stateIO(AR& ar) {return ar & d->dtDid & d->dtTry;}
};
// observes what is averaged
template<int R> struct Cap : structure::Averaged<R> {
  Dims<R> dc; mutable M seen; mutable double at; bool counting=false; mutable int count=0; private:
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<"key"<<i<<"\n"; i+=2; return os;}
  size_t nAvr_v() const override {return 2;}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& l) const override {seen=lazyM<R>(l,dc); at=t; structure::Averages a(2); ++count; a(0)=counting ? count : seen(0,0).real(); a(1)=counting ? 100+count : seen(0,1).imag(); return a;}
  void process_v(structure::Averages&) const override {}
  std::ostream& stream_v(const structure::Averages&, std::ostream& os, int) const override {return os;}
};
template<int R, int MASK> struct S : MS<R,MASK>, Cap<R> {S(typename Dyn<R>::P p) : MS<R,MASK>(p) {this->dc=p->d;}};
typedef evolution::Pars<> P;
void fresh() {made.clear(); drawn.clear(); Rng::us.clear(); fraction=nullptr;}
void proper(const V& y) {double q=norm2(y); sr_assume_lt(0,q); sr_assume_lt(q,1.);} // what a decaying state is before renormalisation
V few(int n, const string& l) {if (n<4) return vsym(n,l); V v(n); v[0]=sr_cvar(l); v[1]=sr_var((l+"1").c_str()); v[3]=sr_var((l+"3").c_str()); return v;}
M dyadN(const V& y) {double s=1/norm2(y); return C(s)*dyad(y,y);}
template<int R> structure::QuantumSystemPtr<R> qs(std::shared_ptr<QS<R>> s) {return s;}
// a member per trajectory, each from its own copy of the initial state; what is streamed is the mean of the dyads
template<int R, int MASK> void members(const Dims<R>& d, int most) {
  fresh(); parameters::Table tab; P p(tab); int nT=1+sr_choice(most,"members"); p.nTraj=nT; p.logLevel=2; p.seed=7; p.prngStream=3;
  auto dyn=std::make_shared<Dyn<R>>(d,"s",1,0); auto s=std::make_shared<S<R,MASK>>(dyn); s->f=2; int n=dyn->n; V psi=few(n,"psi"); proper(psi); auto initial=sv<R>(psi,d);
  auto e=quantumtrajectory::mcwf::makeEnsemble<Eng<CArray<R>>,pcg64,tmptools::V_Empty>(qs<R>(s),initial,p,quantumtrajectory::EntanglementMeasuresSwitch(0)); std::ostringstream os;
  sr_check(int(made.size())==nT,"number of trajectories"); sr_eq(e.getTime(),0.,"starts at time zero"); for (auto& m : made) sr_eq(m->dtInit,cppqedutils::trajectory::initialTimeStep(2.),"initial step size from the highest frequency");
  e.stream(os,6); eq(s->seen,dyad(psi,psi),"at the beginning the average is the initial state"); sr_eq(s->at,0.,"time of the averages");
  vector<V> y; for (int i=0;i<nT;++i) {y.push_back(few(n,"y"+std::to_string(i))); proper(y.back());} leaving=[&](int i, int) {return y[i];};
  double T=sr_pos("T"); e.advance(T,os); M mean(n); double dtm=0;
  for (int i=0;i<nT;++i) {eq(made[i]->start,psi,"every trajectory starts from the initial state"); sr_check(made[i]->steps==1,"every trajectory advanced"); sr_eq(made[i]->wanted[0],T,"by the same interval"); mean=mean+dyadN(y[i]);}
  auto r=e.stream(os,6); sr_eq(e.getTime(),T,"time of the ensemble"); sr_eq(s->at,T,"time of the averages"); eq(s->seen,C(1./nT)*mean,"the average is the mean of the dyads of the members");
  auto& av=std::get<1>(r); sr_check(av.size()==2,"number of averages"); sr_eq(av(0),(C(1./nT)*mean)(0,0).real(),"averages streamed"); sr_eq(av(1),(C(1./nT)*mean)(0,1).imag(),"averages streamed");
  eq(mat<R>(e.averaged().getArray()),C(1./nT)*mean,"averaging again gives the same"); eq(vec<R>(initial.getArray()),psi,"the initial state given is not touched");
  (void)dtm;
}
} // anonymous
SR_SCENARIO(mean_two_levels) {members<1,HA>(dims<1>({2}),3);}
SR_SCENARIO(mean_three_levels) {members<1,HA>(dims<1>({3}),2);}
SR_SCENARIO(mean_two_subsystems) {members<2,HA>(dims<2>({2,2}),2);}
SR_SCENARIO(advance_uneven) { // members taking steps of different size
  fresh(); parameters::Table tab; P p(tab); p.nTraj=3; auto dyn=std::make_shared<Dyn<1>>(dims<1>({2}),"s",0,0); auto s=std::make_shared<S<1,HA>>(dyn); V psi=vsym(2,"psi"); auto initial=sv<1>(psi,dyn->d);
  auto e=quantumtrajectory::mcwf::makeEnsemble<Eng<CArray<1>>,pcg64,tmptools::V_Empty>(qs<1>(s),initial,p,0); std::ostringstream os; V one{1.,0.}; leaving=[&](int, int) {return one;};
  vector<double> f; for (int i=0;i<3;++i) {f.push_back(sr_pos(("f"+std::to_string(i)).c_str())); sr_assume_lt(f.back(),1.);} fraction=[&](int i) {return f[i];}; double T=sr_pos("T"); e.advance(T,os); double m=0; for (int i=0;i<3;++i) {sr_eq(made[i]->t,T,"every member arrives at the same time"); m+=made[i]->dtDid;} sr_eq(e.getDtDid(),m/3,"the step size is the mean of those of the members");
}
SR_SCENARIO(generators_distinct) { // jumps of the members are decided by numbers from distinct streams
  fresh(); parameters::Table tab; P p(tab); int nT=2+sr_choice(2,"members"); p.nTraj=nT; p.seed=sr_choice(2,"seed") ? 1001 : 0; unsigned long first=sr_choice(2,"stream") ? 1 : 4; p.prngStream=first; unsigned long seed=p.seed;
  auto dyn=std::make_shared<Dyn<1>>(dims<1>({2}),"s",1,0); auto s=std::make_shared<S<1,LI|HA>>(dyn); V psi=vsym(2,"psi"); proper(psi); auto initial=sv<1>(psi,dyn->d); s->rates_->fixed=.001;
  auto e=quantumtrajectory::mcwf::makeEnsemble<Eng<CArray<1>>,pcg64,tmptools::V_Empty>(qs<1>(s),initial,p,0); std::ostringstream os; leaving=[&](int, int n) {V v(n); v[0]=1; return v;};
  e.advance(1.,os); sr_check(int(drawn.size())==nT,"one number per member and step"); for (size_t i=0;i<drawn.size();++i) {sr_check(drawn[i].seed==seed,"seed of the generators"); for (size_t j=0;j<i;++j) sr_check(drawn[i].stream!=drawn[j].stream || drawn[i].seed!=drawn[j].seed,"no two members share a stream of random numbers");}
  if (drawn.size()) sr_check(drawn[0].stream==first,"the first member uses the stream asked for");
}
SR_SCENARIO(members_jump_alone) { // a jump in one member does not affect the others
  fresh(); parameters::Table tab; P p(tab); p.nTraj=2; auto dyn=std::make_shared<Dyn<1>>(dims<1>({2}),"s",1,0); auto s=std::make_shared<S<1,LI|HA>>(dyn); V psi=vsym(2,"psi"); proper(psi); auto initial=sv<1>(psi,dyn->d);
  double g=sr_pos("g"); s->rates_->consistent=false; s->rates_->onRates=[&](double, const vector<double>& x, const M&) {sr_assume_lt(0,x[0]); sr_assume_lt(x[0],.01);};
  auto e=quantumtrajectory::mcwf::makeEnsemble<Eng<CArray<1>>,pcg64,tmptools::V_Empty>(qs<1>(s),initial,p,0); std::ostringstream os; vector<V> y{vsym(2,"y"),vsym(2,"z")}; for (auto& v : y) proper(v); leaving=[&](int i, int) {return y[i];};
  int who=sr_choice(3,"who"); e.advance(1.,os); auto& given=s->rates_->given; sr_check(drawn.size()==2 && given.size()>=2,"one number per member"); (void)g;
  vector<V> x; M mean(2); for (int i=0;i<2;++i) {double u=drawn[i].u, r=given[given.size()-2+i][0]; bool jumps=who==i; sr_assume_lt(0,u); if (jumps) sr_assume_lt(u,r); else sr_assume_lt(r,u); V v=normalised(y[i]); if (jumps) v=scale(1/sqrt(r),dyn->J(0,1.)*v); mean=mean+dyad(v,v);}
  eq(mat<1>(e.averaged().getArray()),C(.5)*mean,"mean over the members");
}
namespace {
namespace tr_=cppqedutils::trajectory;
template<typename T> std::shared_ptr<std::stringstream> save(T& t) {auto s=std::make_shared<std::stringstream>(std::ios::in|std::ios::out|std::ios::binary); tr_::writeViaSStream(t,std::shared_ptr<std::ostream>(s)); return s;}
template<typename T> bool load(T& t, std::shared_ptr<std::stringstream> s) {
  try {tr_::readViaSStream(t,std::shared_ptr<std::istream>(s));} catch (const std::runtime_error&) {return false;}
  sr_check((s->peek(),s->eof()),"the whole record is consumed"); return true;
}
}
SR_SCENARIO(archive) {
  fresh(); parameters::Table tab; P p(tab); p.nTraj=2; auto dyn=std::make_shared<Dyn<1>>(dims<1>({2}),"s",0,0); auto s=std::make_shared<S<1,HA>>(dyn); V psi=vsym(2,"psi"), chi=vsym(2,"chi"); auto i1=sv<1>(psi,dyn->d), i2=sv<1>(chi,dyn->d);
  auto mk=[&](auto& i) {return quantumtrajectory::mcwf::makeEnsemble<Eng<CArray<1>>,pcg64,tmptools::V_Empty>(qs<1>(s),i,p,0);}; auto A=mk(i1), B=mk(i2); std::ostringstream os;
  vector<V> y; for (int i=0;i<4;++i) {y.push_back(vsym(2,"y"+std::to_string(i))); proper(y.back());} leaving=[&](int i, int) {return y[i];}; double T=sr_pos("T"); A.advance(T,os);
  sr_check(load(B,save(A)),"archive accepted"); sr_eq(B.getTime(),T,"time restored"); sr_eq(B.getDtDid(),T,"step size restored"); eq(mat<1>(B.averaged().getArray()),C(.5)*(dyadN(y[0])+dyadN(y[1])),"state restored");
  // each member continues from its own state
  made[2]->steps=made[3]->steps=0; B.advance(1.,os); eq(made[2]->start,normalised(y[0]),"first member continues"); eq(made[3]->start,normalised(y[1]),"second member continues");
  quantumtrajectory::MCWF_Trajectory<1,Eng<CArray<1>>,pcg64> single(qs<1>(s),sv<1>(psi,dyn->d),Eng<CArray<1>>(1.,0),randomutils::EngineWithParameters<pcg64>(1,2),.01,10.,0);
  sr_check(!load(single,save(A)),"an ensemble is not a single trajectory"); sr_check(!load(A,save(single)),"a single trajectory is not an ensemble");
}
namespace {
// generic averaging
struct Plain {
  using StreamedArray=DArray<1>; using EnsembleAverageElement=C; using EnsembleAverageResult=C; C x; double t=0, dt=0, rate=1; int steps=0;
  C averaged() const {return x;} double getTime() const {return t;} double getDtDid() const {return dt;} void step(double d, std::ostream&) {x*=d; t+=d; dt=d; ++steps;}
  std::ostream& streamParameters(std::ostream& os) const {return os;} template<typename A> A& stateIO(A& ar) {return ar & x & t & dt;}
};
struct PlainStreamer {std::shared_ptr<std::pair<double,C>> got=std::make_shared<std::pair<double,C>>(); std::tuple<std::ostream&,DArray<1>> operator()(double t, C x, std::ostream& os, int) const {got->first=t; got->second=x; DArray<1> a(1); a=x.real(); return {os,a};} std::ostream& streamKey(std::ostream& os, size_t&) const {return os;}};
struct PlainLogger {std::ostream& operator()(const std::vector<Plain>&, std::ostream& os) const {return os;}};
} // anonymous
SR_SCENARIO(generic) {
  int n=1+sr_choice(4,"members"); V x=vsym(n,"x"); std::vector<Plain> v(n); C s=0; double T=sr_pos("T"); for (int i=0;i<n;++i) {v[i].x=x[i]; s+=x[i];} PlainStreamer st; std::ostringstream os;
  tr_::Ensemble<Plain,PlainStreamer,PlainLogger> e{std::vector<Plain>(v),PlainStreamer(st),PlainLogger{},C(0)};
  qh::eq(V{e.averaged()},V{s*(1./n)},"mean"); e.advance(T,os); e.stream(os,6); sr_eq(st.got->first,T,"time"); qh::eq(V{st.got->second},V{T*s*(1./n)},"every member is advanced, the mean is streamed"); sr_eq(e.getDtDid(),T,"step size"); qh::eq(V{e.averaged()},V{T*s*(1./n)},"mean is not accumulated");
}
namespace {
// the highest-level driver
template<int R, int MASK> void driver(const Dims<R>& d, int first, int count) {
  fresh(); parameters::Table tab; P p(tab); int method=first+sr_choice(count,"method"); p.nTraj=2; p.evol=method==0 ? evolution::SINGLE : method==1 ? evolution::ENSEMBLE : evolution::MASTER; p.precision=6; p.dc=0; double T=sr_pos("T"); p.T=10; p.Dt=T; p.NDt=1; p.logLevel=0;
  auto dyn=std::make_shared<Dyn<R>>(d,"s",0,0); auto s=std::make_shared<S<R,MASK>>(dyn); s->counting=true; int n=dyn->n; V psi=few(n,"psi"); proper(psi); auto initial=sv<R>(psi,d);
  V y=few(n,"y"), z=few(n,"z"); M yr=hsym(n,"yr"); proper(y); proper(z); sr_assume_lt(0,tr(yr).real());
  leaving=[&](int i, int k) {if (k==n) return i ? z : y; V v; for (int a=0;a<n;++a) for (int b=0;b<n;++b) v.push_back(yr(a,b)); return v;};
  auto res=evolution::_<Eng,pcg64,tmptools::V_Empty>(initial,structure::QuantumSystemPtr<R>(s),p,false,true);
  sr_check(int(made.size())==(method==1 ? 2 : 1),"number of integrations"); V flat; for (int a=0;a<n;++a) for (int b=0;b<n;++b) flat.push_back(psi[a]*conj(psi[b]));
  for (auto& m : made) eq(m->start,method==2 ? flat : psi,"starts from the initial state");
  M fin=method==0 ? dyadN(y) : method==1 ? C(.5)*(dyadN(y)+dyadN(z)) : C(1/tr(yr).real())*yr; eq(s->seen,fin,"what is streamed at the end belongs to the method asked for"); sr_eq(s->at,T,"end of the evolution");
  sr_check(!res.empty(),"averages returned"); auto& last=std::get<2>(res.back()); sr_eq(std::get<0>(res.back()),T,"time of the last averages"); sr_check(last.size()==2,"number of averages"); sr_check(last(0)==s->count && last(1)==100+s->count,"averages returned");
  eq(vec<R>(initial.getArray()),method==0 ? normalised(y) : psi,method==0 ? "the state evolved can be accessed through the initial one" : "the initial state is kept");
}
} // anonymous
SR_SCENARIO(driver_single) {driver<1,HA>(dims<1>({2}),0,1);}
SR_SCENARIO(driver_ensemble) {driver<1,HA>(dims<1>({2}),1,1);}
SR_SCENARIO(driver_master) {driver<1,HA>(dims<1>({2}),2,1);}
SR_SCENARIO(driver_two_subsystems) {driver<2,HA>(dims<2>({2,2}),0,3);}
SR_SCENARIO(driver_master_from_density_operator) {
  fresh(); parameters::Table tab; P p(tab); p.precision=6; p.dc=0; double T=sr_pos("T"); p.T=10; p.Dt=T; p.NDt=1; p.logLevel=0; auto dyn=std::make_shared<Dyn<1>>(dims<1>({2}),"s",0,0); auto s=std::make_shared<S<1,HA>>(dyn); s->counting=true; M r=hsym(2,"r"), y=hsym(2,"y"); sr_assume_lt(0,tr(y).real()); auto rho=dop<1>(r,dyn->d);
  leaving=[&](int, int) {V v; for (int a=0;a<2;++a) for (int b=0;b<2;++b) v.push_back(y(a,b)); return v;};
  evolveMaster<Eng,tmptools::V_Empty>(rho,structure::QuantumSystemPtr<1>(s),p,false,true); V flat; for (int a=0;a<2;++a) for (int b=0;b<2;++b) flat.push_back(r(a,b)); eq(made[0]->start,flat,"starts from the density operator given"); eq(mat<1>(rho.getArray()),C(1/tr(y).real())*y,"the state evolved can be accessed through the initial one"); eq(s->seen,C(1/tr(y).real())*y,"streamed");
}
