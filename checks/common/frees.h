// The free elements with arbitrary parameters, together with what the documentation says about them:
//   A  generator of the (non-unitary) no-jump evolution, d psi/dt = A psi
//   D  the diagonal part of it the exact propagator takes care of in the given picture
//   J  the jump operators
#ifndef FREES_H
#define FREES_H
#include "qh.h"
#include "Mode.h"
#include "Qbit.h"
#include "PumpedTwoLevelAtom.h"
#include "Spin.h"
#include "Particle.h"
#include "MultiLevel.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "AveragingUtils.h"
namespace qh {
struct Case {
  string name; structure::QuantumSystemPtr<1> s; int n=0; M A; vector<C> D; vector<M> J; 
  bool special=false;       // rates are to be calculated from the jumped state
  vector<double> gpar;
  vector<C> freqs;          // the parameters of the dimension of a frequency
  bool truncated=false;     // a jump leads out of the truncated space
};
inline QM_Picture picture(int p) {return p==0?QMP_IP:p==1?QMP_UIP:QMP_SCH;}
struct PMode {parameters::Table t; mode::ParsPumpedLossy p; PMode() : p(t) {}};
inline Case modeCase(bool lossy, bool thermal, bool pumped, bool kerr, bool alter, int n, int pic) {
  static vector<std::shared_ptr<PMode>> keep; keep.push_back(std::make_shared<PMode>()); auto& p=keep.back()->p;
  p.cutoff=n; p.delta=sr_var("delta");
  p.kappa=lossy ? sr_pos("kappa") : 0; p.nTh=thermal ? sr_pos("nTh") : 0;
  p.eta=pumped ? sr_cvar("eta") : C(0); p.omegaKerr=kerr ? sr_var("omK") : 0; p.omegaKerrAlter=alter ? sr_var("omA") : 0;
  Case c; c.name="mode"; c.n=n; QM_Picture q=picture(pic); c.freqs={p.delta,p.kappa*(2*p.nTh+1),p.eta};
  c.s = pumped&&lossy ? mode::make(p,q) : pumped ? mode::make(static_cast<const mode::ParsPumped&>(p),q) : lossy ? mode::make(static_cast<const mode::ParsLossy&>(p),q) : mode::make(static_cast<const mode::Pars&>(p),q);
  double gamma=p.kappa*(2*p.nTh+1), w=p.omegaKerr, wa=p.omegaKerrAlter;
  C z(gamma,-p.delta); M a=aop(n), ad=dag(a);
  M K(n), KA(n); for (int i=0;i<n;++i) {K(i,i)=C(0,-w)*double(i*(i-1)); KA(i,i)=C(0,-wa)*double(i*(i-1));}
  c.A=C(-1)*(z*nop(n))+p.eta*ad-std::conj(p.eta)*a+K+KA;
  c.D.resize(n); for (int i=0;i<n;++i) c.D[i] = pic==0 ? -z*double(i)+K(i,i) : pic==1 ? C(0,p.delta)*double(i)+K(i,i) : C(0);
  if (lossy) {
    c.J.push_back(C(sqrt(2*p.kappa*(p.nTh+1)))*a);
    if (thermal) {c.J.push_back(C(sqrt(2*p.kappa*p.nTh))*ad); c.truncated=true;}
  }
  return c;
}
struct PQbit {parameters::Table t; qbit::ParsPumpedLossyPhaseNoise p; PQbit() : p(t) {}};
inline Case qbitCase(bool lossy, bool noise, bool pumped, int pic) {
  static vector<std::shared_ptr<PQbit>> keep; keep.push_back(std::make_shared<PQbit>()); auto& p=keep.back()->p;
  p.delta=sr_var("delta"); p.gamma=lossy ? sr_pos("gamma") : 0; p.eta=pumped ? sr_cvar("eta") : C(0); p.gamma_parallel=noise ? sr_pos("gpar") : 0;
  if (pumped) sr_assume_lt(0,p.eta.real()*p.eta.real()+p.eta.imag()*p.eta.imag());
  Case c; c.name="qbit"; c.n=2; c.freqs={p.delta,p.gamma,p.eta,p.gamma_parallel};
  c.s = noise ? qbit::make(p,picture(pic)) : qbit::make(static_cast<const qbit::ParsPumpedLossy&>(p),picture(pic));
  C z(p.gamma,-p.delta); M s=aop(2);
  c.A=C(-1)*(z*nop(2))+std::conj(p.eta)*s-p.eta*dag(s);
  if (noise && pic==2) pic=0; // no Schroedinger-picture version
  c.D={0., pic==0 ? -z : pic==1 ? C(0,p.delta) : C(0)};
  if (lossy||noise) c.J.push_back(C(sqrt(2*p.gamma))*s);
  if (noise) {M sz=id(2); sz(1,1)=-1; c.J.push_back(C(sqrt(2*p.gamma_parallel))*sz); c.special=true;}
  return c;
}
inline Case ptlaCase() {
  static vector<std::shared_ptr<PQbit>> keep; keep.push_back(std::make_shared<PQbit>()); auto& p=keep.back()->p;
  p.delta=sr_var("delta"); p.gamma=sr_pos("gamma"); p.eta=sr_cvar("eta");
  Case c; c.name="two-level atom"; c.n=2; c.freqs={p.delta,p.gamma,p.eta}; c.s=std::make_shared<PumpedTwoLevelAtomSch>(p);
  M s=aop(2); c.A=C(-p.gamma,p.delta)*nop(2)+std::conj(p.eta)*s-p.eta*dag(s); c.D={0.,0.};
  c.J={C(sqrt(2*p.gamma))*s};
  return c;
}
struct PSpin {parameters::Table t; spin::Pars p; PSpin() : p(t) {}};
inline M spinSp(int n, int twoS) {M r(n); for (int i=0;i+1<n;++i) r(i+1,i)=sqrt(double((i+1)*(twoS-i))); return r;}
inline Case spinCase(bool lossy, bool sch, int twoS, int dim, bool tilted) {
  static vector<std::shared_ptr<PSpin>> keep; keep.push_back(std::make_shared<PSpin>()); auto& p=keep.back()->p;
  p.twoS=twoS; p.dim=dim; p.omega=sr_var("omega"); p.gamma=lossy ? sr_pos("gamma") : 0.; p.theta=tilted ? sr_var("theta") : 0.; p.phi=tilted ? sr_var("phi") : 0.;
  Case c; c.name="spin"; c.freqs={p.omega,p.gamma}; c.n=dim && dim<twoS+1 ? dim : twoS+1;
  if (lossy) {if (sch) c.s=std::make_shared<LossySpinSch>(p); else c.s=std::make_shared<LossySpin>(p);}
  else {if (sch) c.s=std::make_shared<SpinSch>(p); else c.s=std::make_shared<Spin>(p);}
  M sp=spinSp(c.n,twoS), sm=dag(sp); C z(p.gamma,p.omega);
  M sx=C(.5)*(sp+sm), sy=C(0,-.5)*(sp-sm), sz=nop(c.n)-C(twoS/2.)*id(c.n);
  c.D.resize(c.n);
  if (sch) c.A=C(-1)*(z*(C(sin(p.theta)*cos(p.phi))*sx+C(sin(p.theta)*sin(p.phi))*sy+C(cos(p.theta))*sz));
  else {c.A=C(-1)*(z*nop(c.n)); for (int i=0;i<c.n;++i) c.D[i]=-z*double(i);}
  if (lossy) c.J={C(sqrt(2*p.gamma))*sm};
  return c;
}
struct PPart {parameters::Table t; particle::ParsPumped p; PPart() : p(t) {}};
// e^{iKx} in momentum space: |k> -> |k+K>
inline M expiKx(int n, int K) {M r(n); for (int j=0;j<n;++j) if (j+K>=0 && j+K<n) r(j+K,j)=1; return r;}
inline M modeFunctionOp(int n, ModeFunctionType t, int K) {
  M p=expiKx(n,K), m=expiKx(n,-K);
  return t==MFT_SIN ? C(0,-.5)*(p-m) : t==MFT_COS ? C(.5)*(p+m) : t==MFT_PLUS ? p : m;
}
inline Case particleCase(int fin, bool pumped, int mf, int K, bool sch) {
  static vector<std::shared_ptr<PPart>> keep; keep.push_back(std::make_shared<PPart>()); auto& p=keep.back()->p;
  p.fin=fin; p.omrec=sr_var("omrec"); p.vClass=pumped ? sr_var("vClass") : 0.; p.kPart=K; p.modePart=ModeFunctionType(mf);
  if (pumped) sr_assume_ne(p.vClass,0);
  Case c; c.name="particle"; c.freqs={p.omrec,p.vClass}; int n=c.n=1<<fin;
  if (pumped) c.s=particle::makePumped(p,sch?QMP_SCH:QMP_IP); else c.s=particle::make(p,sch?QMP_SCH:QMP_IP);
  vector<C> kin(n); for (int i=0;i<n;++i) {double k=i-n/2; kin[i]=C(0,-1)*p.omrec*(k*k);}
  c.A=diag(kin); c.D=sch ? vector<C>(n) : kin;
  // vClass*|f(Kx)|^2, without the homogeneous part
  if (pumped && mf<2) c.A=c.A+C(0,-1)*(C(p.vClass*(mf==0?-1:1)/2.)*modeFunctionOp(n,MFT_COS,2*K));
  return c;
}
// three levels, Lambda-like: pumps 0-2, 1-2; decays 2->0, 2->1
inline Case multilevelCase(int config, bool diffusive, bool perLevel=false) {
  using namespace multilevel; using boost::fusion::vector;
  RealPerLevel<3> deltas; for (int i=0;i<3;++i) deltas(i)=sr_var(("delta"+std::to_string(i)).c_str());
  C e0=sr_cvar("etaA"), e1=sr_cvar("etaB"); double g0=sr_pos("gammaA"), g1=sr_pos("gammaB"), gp=0;
  RealPerLevel<3> gpv; gpv=0.; if (diffusive) {gp=sr_pos("gpar"); for (int i=0;i<3;++i) gpv(i)=perLevel ? sr_pos(("gpar"+std::to_string(i)).c_str()) : gp;}
  Case c; c.name="multilevel"; c.freqs={e0,e1,g0,g1}; for (int i=0;i<3;++i) c.freqs.push_back(deltas(i)); if (!perLevel) c.freqs.push_back(gp); c.n=3; c.D.resize(3); for (int i=0;i<3;++i) c.gpar.push_back(gpv(i));
  auto lvl=[](int i, int j){M r(3); r(i,j)=1; return r;};
  auto build=[&](auto pa, auto pb, auto da, auto db) {
    typedef decltype(pa) PA; typedef decltype(pb) PB; typedef decltype(da) DA; typedef decltype(db) DB;
    if (perLevel) c.s=makePumpedLossySch<ReducedDensityOperator<1>>(deltas,vector<PA,PB>(PA(e0),PB(e1)),vector<DA,DB>(DA(g0),DB(g1)),gpv,"ml",3,true);
    else c.s=makePumpedLossySch<ReducedDensityOperator<1>>(deltas,vector<PA,PB>(PA(e0),PB(e1)),vector<DA,DB>(DA(g0),DB(g1)),gp,"ml",3,true);
    c.A=M(3); for (int i=0;i<3;++i) c.A(i,i)=C(0,deltas(i));
    c.A(DA::second,DA::second)-=g0; c.A(DB::second,DB::second)-=g1;
    c.A=c.A+std::conj(e0)*lvl(PA::first,PA::second)-e0*lvl(PA::second,PA::first)+std::conj(e1)*lvl(PB::first,PB::second)-e1*lvl(PB::second,PB::first);
    c.J={C(sqrt(2*g0))*lvl(DA::first,DA::second),C(sqrt(2*g1))*lvl(DB::first,DB::second)};
  };
  if (config==0) build(Pump<0,2>(0),Pump<1,2>(0),Decay<0,2>(0),Decay<1,2>(0));
  else if (config==1) build(Pump<0,1>(0),Pump<1,2>(0),Decay<0,1>(0),Decay<1,2>(0));
  else build(Pump<0,1>(0),Pump<0,2>(0),Decay<0,2>(0),Decay<0,1>(0));
  return c;
}
// exp(D(t-t0)) and D+H generate A, in any picture
inline void checkGenerator(Case c, const string& l) {
  Sys<1> s(c.s); int n=s.n(); sr_check(n==c.n,l+" dimension");
  double t0=sr_var("t0"), t=sr_var("t");
  V phi=vsym(n,"phi");
  if (!s.w.getHa()) for (int i=0;i<n;++i) c.D[i]=c.A(i,i); // nothing but the exact part
  V u=s.U(t,phi,t0), h=s.H(t,phi,t0);
  eq(u,expDiag(c.D,t-t0,phi),l+" U");
  V uh=s.U(t,h,t0);
  eq(add(diag(c.D)*u,uh),c.A*u,l+" generator");
  V init=vsym(n,"acc");
  eq(s.H(t,phi,t0,init),add(init,h),l+" accumulates");
}
} // qh
#endif
