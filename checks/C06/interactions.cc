// Interactions: whatever the pictures of the constituents, the interaction Hamiltonian is the documented one, rotated by the exact part of the constituents
#include "../common/frees.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "MLJC.h"
#include "ParticleCavity.h"
#include "ParticleTwoModes.h"
using namespace qh;
template<typename T> static auto as(const Case& c) {auto r=std::dynamic_pointer_cast<const typename T::element_type>(c.s); sr_check(bool(r),"element of the expected kind"); return r;}
// A: d psi/dt = A psi; cols: the columns where the truncation of the Hilbert space does not matter (empty: all)
template<int R> static void checkInteraction(const structure::Interaction<R>* ia, const vector<Case>& f, const M& A, const string& l, const vector<char>& cols={}) {
  Dims<R> d; for (int i=0;i<R;++i) {d(i)=f[i].n; sr_check(int(ia->getDimensions()(i))==f[i].n,l+" dimensions");}
  int n=total<R>(d); vector<C> D(n,C(0)); for (int k=0;k<n;++k) {auto x=unflat<R>(d,k); for (int i=0;i<R;++i) D[k]+=f[i].D[x(i)];}
  double t0=sr_var("t0"), t=sr_var("t"), s=sr_var("s"); V psi=vsym(n,"psi"), acc=vsym(n,"acc");
  sr_assume_ne(s,t); sr_assume_ne(s,t0);
  if (!cols.empty()) for (int k=0;k<n;++k) if (!cols[k]) psi[k]=0;
  auto ha=dynamic_cast<const structure::Hamiltonian<R>*>(ia);
  sr_check(ha,l+" has a Hamiltonian"); if (!ha) return;
  auto apply=[&](double t, double t0, V init) {auto a=arr<R>(psi,d), r=arr<R>(init,d); ha->addContribution(t,a,r,t0); eq(vec<R>(a),psi,l+" operand intact"); return vec<R>(r);};
  eq(apply(t,t0,acc),add(acc,expDiag(D,t0-t,A*expDiag(D,t-t0,psi))),l+" generator");
  apply(s,t0,acc); // evaluation at some other time leaves no trace
  V z(n,C(0)); eq(apply(t,t0,z),expDiag(D,t0-t,A*expDiag(D,t-t0,psi)),l+" generator after another time");
}
static Case aMode(int n, const char* pl="picture of mode", bool kerr=true) {return modeCase(true,false,false,kerr,false,n,sr_choice(3,pl));}
static M overI(const M& m) {return C(0,-1)*m;}
static M hc(const M& m) {return m+dag(m);}

SR_SCENARIO(jaynescummings_qbit) {
  Case q=qbitCase(true,false,false,sr_choice(3,"picture of qbit")), m=aMode(3); C g=sr_cvar("g"); sr_assume_ne(g.real(),0);
  auto ia=jaynescummings::make(as<qbit::Ptr>(q),as<mode::Ptr>(m),g);
  M x=std::conj(g)*kron(aop(2),dag(aop(3))); checkInteraction<2>(ia.get(),{q,m},x-dag(x),"Jaynes-Cummings");
}
SR_SCENARIO(jaynescummings_imaginary) {
  Case q=qbitCase(true,false,false,0), m=aMode(3); C g(0,sr_var("g")); sr_assume_ne(g.imag(),0);
  auto ia=jaynescummings::make(as<qbit::Ptr>(q),as<mode::Ptr>(m),g);
  M x=std::conj(g)*kron(aop(2),dag(aop(3))); checkInteraction<2>(ia.get(),{q,m},x-dag(x),"Jaynes-Cummings");
}
SR_SCENARIO(jaynescummings_none) {
  Case q=qbitCase(true,false,false,0), m=aMode(3); auto ia=jaynescummings::make(as<qbit::Ptr>(q),as<mode::Ptr>(m),0);
  sr_check(!dynamic_cast<const structure::Hamiltonian<2>*>(ia.get()),"no coupling, no Hamiltonian");
}
SR_SCENARIO(jaynescummings_spin) {
  int twoS=1+sr_choice(2,"twoS-1"); Case q=spinCase(true,sr_choice(2,"spin Schroedinger"),twoS,0,false), m=aMode(3); C g=sr_cvar("g"); sr_assume_ne(g.real(),0);
  auto ia=jaynescummings::make(as<spin::Ptr>(q),as<mode::Ptr>(m),g);
  M x=std::conj(g)*kron(dag(spinSp(twoS+1,twoS)),dag(aop(3))); checkInteraction<2>(ia.get(),{q,m},x-dag(x),"Tavis-Cummings");
}
template<coupledmodes::Coupling CM> static void coupled() {
  Case a=aMode(3,"picture of mode 1"), b=aMode(4,"picture of mode 2",false); C u=sr_cvar("u"); sr_assume_ne(u.real(),0);
  auto ia=coupledmodes::make<CM>(as<mode::Ptr>(a),as<mode::Ptr>(b),u);
  M x1=C(1/sqrt(2.))*hc(aop(3)), x2=C(1/sqrt(2.))*hc(aop(4));
  M A = CM==coupledmodes::CM_NX ? overI(C(u.real())*kron(nop(3),x2)) : CM==coupledmodes::CM_XX ? overI(C(u.real())*kron(x1,x2)) : std::conj(u)*kron(aop(3),dag(aop(4)))-u*kron(dag(aop(3)),aop(4));
  checkInteraction<2>(ia.get(),{a,b},A,"coupled modes");
}
SR_SCENARIO(coupled_NX) {coupled<coupledmodes::CM_NX>();}
SR_SCENARIO(coupled_XX) {coupled<coupledmodes::CM_XX>();}
SR_SCENARIO(coupled_XX_RWA) {coupled<coupledmodes::CM_XX_RWA>();}
SR_SCENARIO(general_dicke) {
  int twoS=1+sr_choice(3,"twoS-1"), n=twoS+1; Case m=aMode(3), s=spinCase(true,sr_choice(2,"spin Schroedinger"),twoS,0,false); double u=sr_var("u"), y=sr_var("y");
  GeneralDicke<> ia(as<mode::Ptr>(m),as<spin::Ptr>(s),u,y);
  M sx=C(.5)*hc(spinSp(n,twoS));
  checkInteraction<2>(&ia,{m,s},overI(C(u)*kron(nop(3),nop(n))+C(y)*kron(hc(aop(3)),sx)),"Dicke");
}
template<typename CA, typename CB> static void mljcCheck(int cfg) {
  using boost::fusion::vector; typedef vector<CA,CB> VC; Case ml=multilevelCase(cfg,false), m=aMode(3); C g=sr_cvar("g"), h=sr_cvar("h");
  parameters::Table t; mljc::Pars<VC> p(t); p.gs=VC(CA(g),CB(h));
  MLJC<3,VC> ia(as<MultiLevelBase<3>::Ptr>(ml),as<mode::Ptr>(m),p);
  M s1(3), s2(3); s1(CA::first,CA::second)=1; s2(CB::first,CB::second)=1;
  M x=std::conj(g)*kron(s1,dag(aop(3)))+std::conj(h)*kron(s2,dag(aop(3)));
  checkInteraction<2>(&ia,{ml,m},x-dag(x),"multi-level Jaynes-Cummings");
}
SR_SCENARIO(mljc_lambda) {mljcCheck<Coupling<0,2>,Coupling<1,2>>(0);}
SR_SCENARIO(mljc_ladder) {mljcCheck<Coupling<0,1>,Coupling<1,2>>(1);}

// ---- moving particles: operators that are functions of x, as Laurent polynomials of e^{ix}
struct L {std::map<int,C> c; L operator*(const L& o) const {L r; for (auto& a : c) for (auto& b : o.c) r.c[a.first+b.first]+=a.second*b.second; return r;}
  L conj() const {L r; for (auto& a : c) r.c[-a.first]=std::conj(a.second); return r;}
  M m(int n) const {M r(n); for (auto& a : c) r=r+a.second*expiKx(n,a.first); return r;}};
static L mf(int t, int K) {L r; if (t==MFT_SIN) {r.c[K]+=C(0,-.5); r.c[-K]+=C(0,.5);} else if (t==MFT_COS) {r.c[K]+=.5; r.c[-K]+=.5;} else r.c[t==MFT_PLUS?K:-K]=1; return r;}
static L homogeneousless(L l) {l.c[0]=0; return l;}
static particle::PtrPumped pumpedParticle(const Case& c) {auto r=std::dynamic_pointer_cast<const std::remove_const_t<particle::PtrPumped::element_type>>(c.s); sr_check(bool(r),"a pumped particle"); return r;}
SR_SCENARIO(mode_functions) { // operators that are mode functions, and products of two of them
  Case p=particleCase(3,false,0,1,sr_choice(2,"Schroedinger")); auto part=as<particle::Ptr>(p);
  int t1=sr_choice(4,"first"), t2=sr_choice(4,"second"), K1=(1+sr_choice(2,"K-1"))*(sr_choice(2,"negative first")?-1:1), K2=std::abs(K1)*(sr_choice(2,"negative second")?-1:1);
  double t=sr_var("t"); V psi=vsym(8,"psi");
  auto act=[&](quantumoperator::Tridiagonal<1> o) {o.propagate(t); CArray<1> a(arr<1>(psi,dims<1>({8}))), r(8); r=0; o.apply(a,r); return vec<1>(r);};
  auto ref=[&](const M& m) {return expDiag(p.D,-t,m*expDiag(p.D,t,psi));};
  eq(act(particle::mfNKX(part,ModeFunction(ModeFunctionType(t1),K1))),ref(mf(t1,K1).m(8)),"mode function");
  eq(act(particle::mfComposition(part,ModeFunction(ModeFunctionType(t1),K1),ModeFunction(ModeFunctionType(t2),K2))),ref((mf(t1,K1).conj()*mf(t2,K2)).m(8)),"product of mode functions");
}
struct PAlong {parameters::Table t; particlecavity::ParsAlongGenericPump p; PAlong() : p(t) {}};
SR_SCENARIO(orthogonal) {
  int t=sr_choice(4,"pump mode function"), K=1+sr_choice(2,"K-1"); Case m=aMode(2), p=particleCase(2,true,t,K,sr_choice(2,"particle Schroedinger"));
  PAlong pars; pars.p.uNot=sr_var("uNot"); auto part=pumpedParticle(p); double v=part->getV_Class(); sr_assume_lt(0,pars.p.uNot*v);
  ParticleOrthogonalToCavity ia(as<mode::Ptr>(m),part,static_cast<const particlecavity::ParsOrthogonal&>(pars.p));
  double eta=sqrt(pars.p.uNot*v)*(pars.p.uNot>0 ? 1 : -1);
  checkInteraction<2>(&ia,{m,p},overI(C(eta)*hc(kron(aop(2),mf(t,K).m(4)))),"particle orthogonal to cavity");
}
static M dispersive(int nm, int n, double u, int t, int K) {return C(u)*kron(nop(nm),homogeneousless(mf(t,K).conj()*mf(t,K)).m(n));}
SR_SCENARIO(along_unpumped) { // with an external transverse pump of amplitude etaeff
  int t=sr_choice(4,"cavity mode function"), K=1+sr_choice(2,"K-1"), n=1<<2; Case m=aMode(3), p=particleCase(2,false,0,1,sr_choice(2,"particle Schroedinger"));
  PAlong pars; pars.p.uNot=sr_var("uNot"); pars.p.kCav=K; pars.p.modeCav=ModeFunctionType(t); pars.p.etaeff=sr_var("etaeff");
  ParticleAlongCavity ia(as<mode::Ptr>(m),as<particle::Ptr>(p),pars.p);
  checkInteraction<2>(&ia,{m,p},overI(dispersive(3,n,pars.p.uNot,t,K)+C(pars.p.etaeff)*hc(kron(aop(3),mf(t,K).m(n)))),"particle along cavity");
}
SR_SCENARIO(along_unpumped_vclass) {
  int t=sr_choice(4,"cavity mode function"), n=1<<2; Case m=aMode(2), p=particleCase(2,false,0,1,sr_choice(2,"particle Schroedinger"));
  PAlong pars; pars.p.uNot=sr_var("uNot"); pars.p.kCav=1; pars.p.modeCav=ModeFunctionType(t); double v=sr_var("v"); sr_assume_lt(0,pars.p.uNot*v);
  ParticleAlongCavity ia(as<mode::Ptr>(m),as<particle::Ptr>(p),static_cast<const particlecavity::ParsAlong&>(pars.p),v);
  double eta=sqrt(pars.p.uNot*v)*(pars.p.uNot>0 ? 1 : -1);
  checkInteraction<2>(&ia,{m,p},overI(dispersive(2,n,pars.p.uNot,t,1)+C(eta)*hc(kron(aop(2),mf(t,1).m(n)))),"particle along cavity");
}
static void alongPumped(int fin, int K1, int K2) {
  int t1=sr_choice(4,"cavity mode function"), t2=sr_choice(4,"pump mode function"), n=1<<fin; Case m=modeCase(true,false,false,false,false,2,sr_choice(2,"mode Schroedinger")?2:0), p=particleCase(fin,true,t2,K2,sr_choice(2,"particle Schroedinger"));
  PAlong pars; pars.p.uNot=sr_var("uNot"); pars.p.kCav=K1; pars.p.modeCav=ModeFunctionType(t1); pars.p.etaeff=sr_var("etaeff");
  ParticleAlongCavity ia(as<mode::Ptr>(m),pumpedParticle(p),pars.p);
  vector<char> cols; int K=std::max(K1,K2); if (K1!=K2) for (int i=0;i<2*n;++i) cols.push_back(i%n>=K && i%n<n-K);
  checkInteraction<2>(&ia,{m,p},overI(dispersive(2,n,pars.p.uNot,t1,K1)+C(pars.p.etaeff)*hc(kron(aop(2),(mf(t1,K1)*mf(t2,K2).conj()).m(n)))),"pumped particle along cavity",cols);
}
SR_SCENARIO(along_pumped_same_wavenumber) {alongPumped(2,1,1);}
SR_SCENARIO(along_pumped_different_wavenumber) {alongPumped(3,2,1);}
static void twoModes(int fin, int K1, int K2) {
  int t1=sr_choice(4,"first mode function"), t2=sr_choice(4,"second mode function"), n=1<<fin, sch=sr_choice(2,"Schroedinger");
  Case a=modeCase(true,false,false,false,false,2,sch?2:0), b=modeCase(true,false,false,false,false,2,sch?2:1), p=particleCase(fin,false,0,1,sch);
  PAlong pa, pb; double x=sr_pos("x"), y=sr_pos("y"); int sg=sr_choice(2,"red")?-1:1; pa.p.uNot=sg*x; pb.p.uNot=sg*y; pa.p.kCav=K1; pb.p.kCav=K2; pa.p.modeCav=ModeFunctionType(t1); pb.p.modeCav=ModeFunctionType(t2); double phi=sr_var("phi");
  ParticleTwoModes ia(as<mode::Ptr>(a),as<mode::Ptr>(b),as<particle::Ptr>(p),pa.p,pb.p,phi);
  vector<char> cols; int K=std::max(K1,K2); if (K1!=K2) for (int i=0;i<4*n;++i) cols.push_back(i%n>=K && i%n<n-K);
  M X=kron(kron(dag(aop(2)),aop(2)),(mf(t1,K1).conj()*mf(t2,K2)).m(n));
  checkInteraction<3>(&ia,{a,b,p},overI(hc(C(sg*sqrt(x*y))*std::exp(C(0,phi))*X)),"particle and two modes",cols);
}
SR_SCENARIO(two_modes_same_wavenumber) {twoModes(2,1,1);}
SR_SCENARIO(two_modes_different_wavenumber) {twoModes(3,1,2);}
