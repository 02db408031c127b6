// In every picture the exact part and the Hamiltonian part of a free element together are the documented generator
#include "../common/frees.h"
using namespace qh;
#define MODE(name,lossy,thermal,pumped,kerr,alter) SR_SCENARIO(mode_##name) {int pic=sr_choice(3,"picture"); checkGenerator(modeCase(lossy,thermal,pumped,kerr,alter,sr_thorough()?5:4,pic),"mode");}
MODE(free,0,0,0,0,0)
MODE(lossy,1,0,0,0,0)
MODE(thermal,1,1,0,0,0)
MODE(pumped,0,0,1,0,0)
MODE(pumped_lossy,1,0,1,0,0)
MODE(pumped_thermal,1,1,1,0,0)
MODE(kerr,0,0,0,1,0)
MODE(kerr_pumped,0,0,1,1,1)
MODE(kerr_pumped_lossy,1,0,1,1,1)
MODE(kerr_lossy,1,0,0,1,0)
MODE(kerr_alter,0,0,0,0,1)
MODE(kerr_both_thermal,1,1,0,1,1)
SR_SCENARIO(qbit) {int pic=sr_choice(3,"picture"), l=sr_choice(2,"lossy"), p=sr_choice(2,"pumped"); checkGenerator(qbitCase(l,false,p,pic),"qbit");}
SR_SCENARIO(qbit_phase_noise) {int pic=sr_choice(3,"picture"), p=sr_choice(2,"pumped"), l=sr_choice(2,"lossy"); checkGenerator(qbitCase(l,true,p,pic),"qbit");}
SR_SCENARIO(two_level_atom) {checkGenerator(ptlaCase(),"atom");}
SR_SCENARIO(spin) {
  int twoS=1+sr_choice(4,"twoS-1"), lossy=sr_choice(2,"lossy"), sch=sr_choice(2,"schroedinger"), trunc=sr_choice(2,"truncated");
  if (trunc && twoS<2) return;
  checkGenerator(spinCase(lossy,sch,twoS,trunc?twoS:0,false),"spin");
}
SR_SCENARIO(spin_tilted) {int twoS=1+sr_choice(3,"twoS-1"); checkGenerator(spinCase(false,true,twoS,0,true),"spin");}
SR_SCENARIO(particle) {int fin=2+sr_choice(2,"fin-2"), sch=sr_choice(2,"schroedinger"); checkGenerator(particleCase(fin,false,0,1,sch),"particle");}
SR_SCENARIO(particle_pumped) {int mf=sr_choice(4,"modefunction"), K=1+sr_choice(2,"K-1"), sch=sr_choice(2,"schroedinger"); checkGenerator(particleCase(3,true,mf,K,sch),"particle");}
SR_SCENARIO(multilevel) {int cfg=sr_choice(3,"configuration"); checkGenerator(multilevelCase(cfg,false),"multilevel");}
SR_SCENARIO(matrix_hamiltonian) {
  int n=sr_thorough()?3:2; M h=msym(n,"H"); linalg::CMatrix m(n,n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) m(i,j)=h(i,j);
  Case c; c.n=n; c.A=h; c.D.resize(n); c.s=std::make_shared<TimeIndependentMatrixHamiltonian>(m);
  checkGenerator(c,"matrix");
}
// the times handed to an implementer: both times, their difference, or none, irrespective of what was propagated before
namespace {
template<bool TWO> struct ExactProbe : structure::FreeExact<TWO> {
  V a,b; ExactProbe() : structure::FreeExact<TWO>(2), a(vsym(2,"a")), b(vsym(2,"b")) {}
  static C f(const C& a, const C& b, double t, double t0) {return C(1.)+a*t+b*t0;}
  bool applicableInMaster_v() const override {return true;}
  void updateU(typename structure::FreeExact<TWO>::Time t) const override {for (int i=0;i<2;++i) if constexpr (TWO) this->getDiagonal()(i)=f(a[i],b[i],t.getT(),t.getT0()); else this->getDiagonal()(i)=f(a[i],b[i],double(t),0.);}
};
template<structure::TimeDependence TD> struct HaProbe : structure::HamiltonianTimeDependenceDispatched<1,TD> {
  typedef typename structure::HamiltonianTimeDependenceDispatched<1,TD>::Time Time;
  void addContribution_v(Time t, const CArray<1>& psi, CArray<1>& d) const override {
    if constexpr (TD==structure::TimeDependence::TWO) {d(0)+=t.getT()*psi(1); d(1)+=t.getT0()*psi(0);} else if constexpr (TD==structure::TimeDependence::ONE) {d(0)+=double(t)*psi(1); d(1)+=double(t)*psi(0);} else {d(0)+=psi(1); d(1)+=psi(0);}
  }
};
template<bool TWO> void exactHistory() {
  ExactProbe<TWO> e; const structure::Exact<1>& x=e; int n=sr_thorough()?4:3; // same length, same start, same end, or unrelated to an earlier interval
  double T[5],T0[5]; T[0]=sr_var("t0"); T0[0]=sr_var("s0");
  for (int k=0;k<n;++k) {
    string s=std::to_string(k);
    if (k) switch (sr_choice(4,("relation"+s).c_str())) {case 0: T0[k]=sr_var(("s"+s).c_str()); T[k]=T0[k]+(T[k-1]-T0[k-1]); break; case 1: T0[k]=T0[k-1]; T[k]=sr_var(("t"+s).c_str()); break; case 2: T[k]=T[k-1]; T0[k]=sr_var(("s"+s).c_str()); break; case 3: T0[k]=T[k]=sr_var(("t"+s).c_str()); break;}
    V p=vsym(2,"psi"+s); auto ar=arr<1>(p,dims<1>({2})); x.actWithU(T[k],ar,T0[k]);
    for (int i=0;i<2;++i) p[i]=p[i]*(TWO ? ExactProbe<TWO>::f(e.a[i],e.b[i],T[k],T0[k]) : ExactProbe<TWO>::f(e.a[i],e.b[i],T[k]-T0[k],0.));
    eq(vec<1>(ar),p,"propagation over interval "+s);
  }
}
template<structure::TimeDependence TD> void haTimes(double a, double b, const string& l) {
  HaProbe<TD> h; const structure::Hamiltonian<1>& x=h; V p=vsym(2,"psi"), acc=vsym(2,"acc"), r=acc; double t=sr_var("t"), t0=sr_var("t0");
  if (TD==structure::TimeDependence::TWO) {a=t; b=t0;} else if (TD==structure::TimeDependence::ONE) a=b=t-t0; else a=b=1;
  auto ap=arr<1>(p,dims<1>({2})), ad=arr<1>(acc,dims<1>({2})); x.addContribution(t,ap,ad,t0); r[0]+=a*p[1]; r[1]+=b*p[0]; eq(vec<1>(ad),r,l); eq(vec<1>(ap),p,l+" operand intact");
}
}
SR_SCENARIO(time_two) {exactHistory<true>();}
SR_SCENARIO(time_one) {exactHistory<false>();}
SR_SCENARIO(time_hamiltonian) {haTimes<structure::TimeDependence::TWO>(0,0,"both times"); haTimes<structure::TimeDependence::ONE>(0,0,"time difference"); haTimes<structure::TimeDependence::NO>(0,0,"no time");}
