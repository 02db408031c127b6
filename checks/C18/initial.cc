// Initial states: those documented, normalised
#include "qh.h"
#include "Mode.h"
#include "Qbit.h"
#include "Particle.h"
#include "ParsParticle.h"
#include "ParticleInitialCondition.h"
#include "LazyDensityOperatorFFT.h"
#include "MathExtensions.h"
using namespace qh;
namespace {
V coherentRef(C alpha, int n) {V v(n); double e=std::exp(-(alpha.real()*alpha.real()+alpha.imag()*alpha.imag())/2.); C p=1; double f=1; for (int i=0;i<n;++i) {if (i) {p=p*alpha; f*=i;} v[i]=(e/std::sqrt(f))*p;} return v;}
C amplitude() {switch (sr_choice(5,"amplitude")) {case 0: return sr_cvar("alpha"); case 1: return sr_pos("alpha"); case 2: return -sr_pos("alpha"); case 3: return C(0,sr_var("alpha")); default: return 0;}}
// psi is ref normalised
void normalised(const V& psi, const V& ref, const string& l) {
  sr_check(psi.size()==ref.size(),l+": size"); if (psi.size()!=ref.size()) return; double n=std::sqrt(norm2(ref)); for (size_t i=0;i<ref.size();++i) sr_eq(psi[i],(1/n)*ref[i],l+"["+std::to_string(i)+"]");
}
C root(int k, int n) {static const double r=std::sqrt(.5); k=((k%n+n)%n)*(8/n); static const double c[]={1,r,0,-r,-1,-r,0,r}; return C(c[k],c[(k+6)%8]);}
V fourier(const V& v, bool xk) {int n=v.size(); V w(n); double s=1/std::sqrt(double(n)); for (int j=0;j<n;++j) {C x=0; for (int k=0;k<n;++k) x+=((j+k)%2 ? -s : s)*root(xk ? -j*k : j*k,n)*v[k]; w[j]=x;} return w;}
V packet(double x0, double k0, double sig, bool inK, const particle::Spatial& sp, bool kFlag) {
  int n=sp.getDimension(); V v(n); for (int j=0;j<n;++j) {double z=inK ? sp.k(j)-k0 : sp.x(j)-cppqedutils::PI*x0; double ph=inK ? -sp.k(j)*(cppqedutils::PI*x0) : sp.x(j)*k0; double e=std::exp(-z*z/(4*sig*sig)); v[j]=C(e*std::cos(ph),e*std::sin(ph));}
  if (inK==kFlag) return v; return fourier(v,kFlag);
}
V oscillator(int m, double x0, double a, const particle::Spatial& sp, bool kFlag) {
  int n=sp.getDimension(); V v(n); for (int j=0;j<n;++j) {double z=(sp.x(j)-cppqedutils::PI*x0)/a, h=m==0 ? 1. : m==1 ? 2*z : m==2 ? 4*z*z-2 : 8*z*z*z-12*z; v[j]=std::exp(-z*z/2)*h;} return kFlag ? fourier(v,true) : v;
}
struct PP {parameters::Table t; particle::Pars p; PP() : p(t) {}}; struct PPP {parameters::Table t; particle::ParsPumped p; PPP() : p(t) {}};
void assign(particle::InitialCondition& i, double x0, double k0, double sig, bool inK) {i.get()=particle::InitialCondition::Impl(x0,k0,sig,inK);}
}
SR_SCENARIO(coherent) {int n=1+sr_choice(5,"cutoff"); C al=amplitude(); auto psi=mode::coherent(al,n); sr_check(int(psi.getDimension())==n,"dimension"); eq(vec<1>(psi.getArray()),coherentRef(al,n),"coherent state");}
SR_SCENARIO(coherent_element) {int n=sr_choice(6,"photons"); C al=amplitude(); C p=1; double f=1; for (int i=1;i<=n;++i) {p=p*al; f*=i;} sr_eq(cppqedutils::coherentElement(n,al),(1/std::sqrt(f))*p,"element of the coherent state");}
SR_SCENARIO(fock) {
  int n=1+sr_choice(4,"cutoff"), k=sr_choice(6,"photons"); double ph=sr_choice(2,"phase") ? sr_var("phase") : 0.; bool thrown=false; 
  try {auto psi=mode::fock(k,n,ph); V r(n,C(0)); sr_check(k<n,"states beyond the cutoff are refused"); if (k>=n) return; r[k]=C(std::cos(ph),std::sin(ph)); eq(vec<1>(psi.getArray()),r,"Fock state"); sr_eq(norm2(vec<1>(psi.getArray())),1.,"norm");} catch (const std::exception&) {thrown=true;} sr_check(thrown==(k>=n),"states beyond the cutoff are refused");
}
SR_SCENARIO(mode_by_parameters) {
  struct P {parameters::Table t; mode::Pars p; P() : p(t) {}} P; int n=4, k=sr_choice(4,"photons"); C al=amplitude(); P.p.cutoff=n; P.p.minitFock=k; P.p.minit=al; V psi=vec<1>(mode::init(P.p).getArray()); if (k) eq(psi,basis(n,k),"Fock state asked for"); else eq(psi,coherentRef(al,n),"coherent state asked for");
}
SR_SCENARIO(qbit_) {
  C a=sr_cvar("a"); sr_assume_lt(a.real()*a.real()+a.imag()*a.imag(),1); bool byPars=sr_choice(2,"parameters"); struct P {parameters::Table t; qbit::Pars p; P() : p(t) {}} P; P.p.qbitInit=a; V psi=vec<1>((byPars ? qbit::init(P.p) : qbit::init(a)).getArray()); sr_check(psi.size()==2,"dimension"); if (psi.size()!=2) return;
  sr_eq(psi[1],a,"excited amplitude"); sr_eq(psi[0].imag(),0.,"ground amplitude is real"); sr_le(0,psi[0].real(),"ground amplitude is positive"); sr_eq(norm2(psi),1.,"norm"); eq(vec<1>(qbit::state0().getArray()),basis(2,0),"ground state"); eq(vec<1>(qbit::state1().getArray()),basis(2,1),"excited state");
}
SR_SCENARIO(wave_packet) {
  int fin=1+sr_choice(2,"resolution"); bool inK=sr_choice(2,"in k"), kFlag=sr_choice(2,"result in k"); double x0=sr_var("x0"), k0=sr_choice(2,"moving") ? sr_var("k0") : 0., sig=sr_pos("sig"); particle::Spatial sp(fin); V ref=packet(x0,k0,sig,inK,sp,kFlag);
  V psi=vec<1>(particle::wavePacket(particle::InitialCondition(x0,k0,sig,inK),sp,kFlag).getArray()); normalised(psi,ref,"wave packet");
}
SR_SCENARIO(oscillator_state) {
  int fin=1+sr_choice(2,"resolution"), m=sr_choice(5,"quantum number")-1; bool kFlag=sr_choice(2,"result in k"); double x0=sr_var("x0"), sig=sr_pos("sig"); particle::Spatial sp(fin); V ref=oscillator(m<0 ? 0 : m,x0,sig,sp,kFlag); sr_assume_lt(0,norm2(ref));
  V psi=vec<1>(particle::hoState(m,particle::InitialCondition(x0,0,sig),sp,kFlag).getArray()); normalised(psi,ref,"oscillator state");
}
SR_SCENARIO(particle_by_parameters) {
  int m=sr_choice(3,"quantum number")-1; bool pumped=sr_choice(2,"pumped"), inK=sr_choice(2,"in k"); double x0=sr_var("x0"), k0=sr_var("k0"), sig=sr_pos("sig"); particle::Spatial sp(1); V psi;
  if (pumped) {PPP p; p.p.fin=1; p.p.hoInitn=m; assign(p.p.init,x0,k0,sig,inK); psi=vec<1>(particle::init(p.p).getArray());} else {PP p; p.p.fin=1; p.p.hoInitn=m; assign(p.p.init,x0,k0,sig,inK); psi=vec<1>(particle::init(p.p).getArray());}
  V ref=m<0 ? packet(x0,k0,sig,inK,sp,true) : oscillator(m,x0,sig,sp,true); sr_assume_lt(0,norm2(ref)); normalised(psi,ref,m<0 ? "wave packet asked for" : "oscillator state asked for");
}
SR_SCENARIO(particle_in_its_potential) { // no width given: that of the oscillator the potential vClass*x^2 forms with the kinetic energy omrec*k^2
  int m=sr_choice(3,"quantum number")-1; PPP p; p.p.fin=1+sr_choice(2,"resolution"); p.p.hoInitn=m; double x0=sr_var("x0"), k0=m<0 ? sr_var("k0") : 0., om=sr_pos("omrec"), v=sr_choice(2,"sign") ? sr_pos("v") : -sr_pos("v"); p.p.omrec=om; p.p.vClass=v; assign(p.p.init,x0,k0,0,sr_choice(2,"in k"));
  V psi=vec<1>(particle::init(p.p).getArray()); particle::Spatial sp(p.p.fin); double a=std::pow(om/std::fabs(v),.25); V ref=m<0 ? packet(x0,k0,a/std::sqrt(2.),false,sp,true) : oscillator(m,x0,a,sp,true); sr_assume_lt(0,norm2(ref)); normalised(psi,ref,m<0 ? "ground state of the potential" : "eigenstate of the potential");
}
