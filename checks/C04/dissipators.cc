// Quantum jumps of the free elements: the jump operators are the documented ones, the jump rate is the squared norm of the jumped
// state, the superoperator is J rho J^dagger, and the jumps balance the norm loss of the no-jump evolution (up to a constant that is
// the same for every state, and drops out upon renormalisation).
#include "../common/frees.h"
#include "HomodynedMode.h"
using namespace qh;
static void jumps(Sys<1>& s, const vector<M>& J, bool special, bool truncated, const string& l) {
  int n=s.n(); double t=sr_var("t");
  sr_check(s.nJ()==int(J.size()),l+" number of jumps"); if (s.nJ()!=int(J.size())) return;
  if (J.empty()) return;
  V psi=vsym(n,"psi"); M rho=hsym(n,"rho"), acc=msym(n,"acc");
  V low(psi); if (truncated) low[n-1]=0; M rlow(rho); if (truncated) for (int i=0;i<n;++i) rlow(i,n-1)=rlow(n-1,i)=0;
  auto r=s.rates(t,low), R=s.rates(t,rlow);
  sr_check(r.size()==J.size()&&R.size()==J.size(),l+" number of rates");
  for (int k=0;k<int(J.size());++k) {
    string lk=l+" jump "+std::to_string(k);
    eq(s.J(t,psi,k),J[k]*psi,lk+" operator");
    if (special && !(r[k]>=0)) {sr_check(r[k]<0 && R[k]<0,lk+" special rate");}
    else {
      sr_eq(r[k],norm2(J[k]*low),lk+" rate (state vector)");
      sr_eq(C(R[k]),tr(J[k]*rlow*dag(J[k])),lk+" rate (density operator)");
    }
    bool implemented=true; M S;
    try {S=s.S(t,rho,k,&acc);} catch (const structure::SuperoperatorNotImplementedException&) {implemented=false;}
    if (implemented) eq(S,acc+J[k]*rho*dag(J[k]),lk+" superoperator");
  }
}
static void dissipator(Case c, const string& l, bool balanced=true) {
  Sys<1> s(c.s); int n=c.n;
  jumps(s,c.J,c.special,c.truncated,l);
  if (!s.w.getHa()) for (int i=0;i<n;++i) c.D[i]=c.A(i,i);
  // U is exp(D tau): with D+H(0) it gives the loss of norm
  double tau=sr_var("tau"); V phi=vsym(n,"phi"); eq(s.U(tau,phi,0.),expDiag(c.D,tau,phi),l+" U");
  if (!balanced) return;
  M A(n); for (int j=0;j<n;++j) {V b=basis(n,j), h=s.H(0.,b,0.); for (int i=0;i<n;++i) A(i,j)=h[i]+(i==j?c.D[i]:C(0));}
  M B=A+dag(A); for (int k=0;k<s.nJ();++k) {M Jk(n); for (int j=0;j<n;++j) {V b=s.J(0.,basis(n,j),k); for (int i=0;i<n;++i) Jk(i,j)=b[i];} B=B+dag(Jk)*Jk;}
  int m=c.truncated ? n-1 : n;
  for (int i=0;i<m;++i) for (int j=0;j<m;++j) sr_eq(B(i,j),i==j?B(0,0):C(0),l+" balance["+std::to_string(i)+","+std::to_string(j)+"]");
}
#define MODE(name,thermal,pumped,kerr) SR_SCENARIO(mode_##name) {int pic=sr_choice(3,"picture"); dissipator(modeCase(true,thermal,pumped,kerr,false,sr_thorough()?6:4,pic),"mode");}
MODE(lossy,0,0,0)
MODE(thermal,1,0,0)
MODE(pumped_lossy,0,1,0)
MODE(pumped_thermal,1,1,0)
MODE(kerr_thermal,1,0,1)
SR_SCENARIO(mode_closed) {int pic=sr_choice(3,"picture"), p=sr_choice(2,"pumped"); dissipator(modeCase(false,false,p,true,true,4,pic),"mode");}
SR_SCENARIO(qbit) {int pic=sr_choice(3,"picture"), l=sr_choice(2,"lossy"), p=sr_choice(2,"pumped"); dissipator(qbitCase(l,false,p,pic),"qbit");}
SR_SCENARIO(qbit_phase_noise) {int pic=sr_choice(3,"picture"), p=sr_choice(2,"pumped"), l=sr_choice(2,"lossy"); dissipator(qbitCase(l,true,p,pic),"qbit");}
SR_SCENARIO(two_level_atom) {dissipator(ptlaCase(),"atom");}
SR_SCENARIO(spin_half) {int sch=sr_choice(2,"schroedinger"); dissipator(spinCase(true,sch,1,0,false),"spin");}
SR_SCENARIO(spin_large) {int sch=sr_choice(2,"schroedinger"), twoS=2+sr_choice(2,"twoS-2"); dissipator(spinCase(true,sch,twoS,0,false),"spin");}
SR_SCENARIO(spin_truncated) {int sch=sr_choice(2,"schroedinger"); dissipator(spinCase(true,sch,3,3,false),"spin",false);}
SR_SCENARIO(spin_tilted) {int twoS=1+sr_choice(2,"twoS-1"); dissipator(spinCase(false,true,twoS,0,true),"spin");}
SR_SCENARIO(particle) {int sch=sr_choice(2,"schroedinger"), mf=sr_choice(4,"modefunction"); dissipator(particleCase(2,true,mf,1,sch),"particle");}
SR_SCENARIO(multilevel) {int cfg=sr_choice(3,"configuration"); dissipator(multilevelCase(cfg,false),"multilevel");}
// phase diffusion on top of the radiative decay: one extra jump per level, each flipping the sign of that level
SR_SCENARIO(multilevel_diffusive) {
  int cfg=sr_choice(3,"configuration"); Case c=multilevelCase(cfg,true);
  for (int l=0;l<3;++l) {M f=id(3); f(l,l)=-1; c.J.push_back(C(sqrt(2*c.gpar[l]))*f);}
  c.special=true; dissipator(c,"multilevel");
}
SR_SCENARIO(multilevel_diffusive_per_level) {
  Case c=multilevelCase(0,true,true);
  for (int l=0;l<3;++l) {M f=id(3); f(l,l)=-1; c.J.push_back(C(sqrt(2*c.gpar[l]))*f);}
  c.special=true; dissipator(c,"multilevel");
}
