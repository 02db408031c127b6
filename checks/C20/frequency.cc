// The highest frequency of a system, from which the first time step is estimated
#include "../common/frees.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "MLJC.h"
#include "ParticleCavity.h"
#include "ParticleTwoModes.h"
#include "BinarySystem.h"
#include "Composite.tcc"
#include "QuantumTrajectory.h"
using namespace qh;
namespace {
template<typename T> auto as(const Case& c) {auto r=std::dynamic_pointer_cast<const typename T::element_type>(c.s); sr_check(bool(r),"element of the expected kind"); return r;}
double sq(C c) {return c.real()*c.real()+c.imag()*c.imag();}
void notBelow(double hf, const vector<C>& f, const string& l) {sr_le(0,hf,l+": not negative"); for (size_t i=0;i<f.size();++i) sr_le(sq(f[i]),hf*hf,l+": parameter "+std::to_string(i)+" counts");}
void element(const Case& c) {double hf=c.s->highestFrequency(); notBelow(hf,c.freqs,c.name); sr_check(c.s->getDimensions()(0)==c.n,"dimension");}
struct Dyn : structure::DynamicsBase {Dyn(const RealFreqs& r, const ComplexFreqs& c) : structure::DynamicsBase(r,c) {} void add(const string& s, double x, double m) {getRealFreqs().push_back(RF(s,x,m));} void add(const string& s, C x, double m) {getComplexFreqs().push_back(CF(s,x,m));}};
struct Plain : structure::QuantumSystem<1> {double f; Plain(double x) : structure::QuantumSystem<1>(2), f(x) {} private: double highestFrequency_v() const override {return f;} std::ostream& streamParameters_v(std::ostream& os) const override {return os;}};
}
SR_SCENARIO(lists) { // the largest modulus, with the multipliers, of all the frequencies listed
  int k=sr_choice(sr_thorough() ? 12 : 7,"how many"), nr=k<7 ? (int[]){0,1,2,3,0,1,0}[k] : (int[]){2,3,1,2,3}[k-7], nc=k<7 ? (int[]){0,0,0,0,1,1,2}[k] : (int[]){1,1,2,2,2}[k-7]; bool later=sr_choice(2,"added later"); structure::DynamicsBase::RealFreqs r; structure::DynamicsBase::ComplexFreqs c; vector<double> m2;
  for (int i=0;i<nr;++i) {double x=sr_var(("r"+std::to_string(i)).c_str()), m=i==1 ? 3 : sr_pos(("m"+std::to_string(i)).c_str()); r.push_back({"r",x,m}); m2.push_back(x*x*m*m);} for (int i=0;i<nc;++i) {C x=sr_cvar("c"+std::to_string(i)); double m=i ? 2 : sr_pos("mc"); c.push_back({"c",x,m}); m2.push_back(sq(x)*m*m);}
  double hf; if (later) {Dyn d({},{}); for (auto& x : r) d.add(std::get<0>(x),std::get<1>(x),std::get<2>(x)); for (auto& x : c) d.add(std::get<0>(x),std::get<1>(x),std::get<2>(x)); hf=d.highestFrequency();} else {Dyn d(r,c); hf=d.highestFrequency();}
  sr_le(0,hf,"not negative"); double one=m2.empty() ? hf : 1; for (double x : m2) {sr_le(x,hf*hf,"none is higher"); one=one*(x-hf*hf);} sr_eq(one,0.,"it is one of those listed");
}
SR_SCENARIO(first_step) {double f=sr_pos("f"); auto p=std::make_shared<Plain>(f); sr_eq(10*f*quantumtrajectory::initialTimeStep(structure::QuantumSystemPtr<1>(p)),1.,"first step is a tenth of the shortest timescale"); sr_eq(10*f*cppqedutils::trajectory::initialTimeStep(f),1.,"first step is a tenth of the shortest timescale");}
SR_SCENARIO(modes) {bool lossy=sr_choice(2,"lossy"); element(modeCase(lossy,lossy && sr_choice(2,"thermal"),sr_choice(2,"pumped"),false,false,1+2*sr_choice(2,"cutoff"),sr_choice(3,"picture")));}
SR_SCENARIO(qbits) {bool lossy=sr_choice(2,"lossy"); element(qbitCase(lossy,lossy && sr_choice(2,"phase noise"),sr_choice(2,"pumped"),sr_choice(3,"picture")));}
SR_SCENARIO(two_level_atom) {element(ptlaCase());}
SR_SCENARIO(spins) {bool lossy=sr_choice(2,"lossy"); element(spinCase(lossy,sr_choice(2,"Schroedinger"),2,0,false));}
SR_SCENARIO(particles) {
  bool pumped=sr_choice(2,"pumped"); bool sch=sr_choice(2,"Schroedinger"); auto c=particleCase(1+sr_choice(sr_thorough() ? 7 : 5,"finesse"),pumped,pumped ? sr_choice(2,"mode function") : 0,1,sch);
  // the Schroedinger picture rotates with the kinetic frequencies themselves, the interaction picture with those of steps between neighbouring momenta
  element(c); double hf=c.s->highestFrequency(), k=c.n/2, w=sch ? k*k : k*k-(k-1)*(k-1); sr_le(sq(c.freqs[0])*(w*w),hf*hf,"kinetic frequencies count");
}
SR_SCENARIO(multilevel_) {element(multilevelCase(0,sr_choice(2,"dephasing")));}
SR_SCENARIO(matrix_hamiltonian) {int n=2; linalg::CMatrix m(n,n); vector<C> f; for (int i=0;i<n;++i) for (int j=0;j<n;++j) {C x=i<=j ? sr_cvar("h"+std::to_string(i)+std::to_string(j)) : C(0); m(i,j)=x; f.push_back(x);} TimeIndependentMatrixHamiltonian s(m); notBelow(s.highestFrequency(),f,"matrix Hamiltonian");}
namespace {
Case mode0(int n) {return modeCase(false,false,false,false,false,n,0);}
}
namespace {struct PAlong {parameters::Table t; particlecavity::ParsAlongGenericPump p; PAlong() : p(t) {}};}
SR_SCENARIO(interactions) {
  C g=sr_cvar("g"); sr_assume_ne(g.real(),0);
  switch (sr_choice(9,"which")) {
  case 0: notBelow(jaynescummings::make(as<qbit::Ptr>(qbitCase(false,false,false,0)),as<mode::Ptr>(mode0(3)),g)->highestFrequency(),{g},"Jaynes-Cummings"); break;
  case 1: notBelow(jaynescummings::make(as<spin::Ptr>(spinCase(false,false,2,0,false)),as<mode::Ptr>(mode0(3)),g)->highestFrequency(),{g},"Tavis-Cummings"); break;
  case 2: notBelow(coupledmodes::make<coupledmodes::CM_NX>(as<mode::Ptr>(mode0(2)),as<mode::Ptr>(mode0(3)),g)->highestFrequency(),{g},"coupled modes"); break;
  case 3: notBelow(coupledmodes::make<coupledmodes::CM_XX>(as<mode::Ptr>(mode0(2)),as<mode::Ptr>(mode0(3)),g)->highestFrequency(),{g},"coupled modes"); break;
  case 4: {double u=sr_var("u"), y=sr_var("y"); GeneralDicke<> ia(as<mode::Ptr>(mode0(3)),as<spin::Ptr>(spinCase(false,false,2,0,false)),u,y); notBelow(ia.highestFrequency(),{u,y},"Dicke"); break;}
  case 5: {using boost::fusion::vector; typedef vector<Coupling<0,2>,Coupling<1,2>> VC; C h=sr_cvar("h"); parameters::Table t; mljc::Pars<VC> p(t); p.gs=VC(Coupling<0,2>(g),Coupling<1,2>(h)); MLJC<3,VC> ia(as<MultiLevelBase<3>::Ptr>(multilevelCase(0,false)),as<mode::Ptr>(mode0(3)),p); notBelow(ia.highestFrequency(),{g,h},"multi-level Jaynes-Cummings"); break;}
  case 6: {PAlong p; p.p.uNot=sr_var("u"); p.p.kCav=1; p.p.modeCav=MFT_SIN; p.p.etaeff=sr_var("etaeff"); ParticleAlongCavity ia(as<mode::Ptr>(mode0(3)),as<particle::Ptr>(particleCase(2,false,0,1,false)),p.p); notBelow(ia.highestFrequency(),{p.p.uNot,p.p.etaeff},"particle along cavity"); break;}
  case 7: {PAlong p; p.p.uNot=sr_var("u"); auto c=particleCase(2,true,0,1,false); auto pp=std::dynamic_pointer_cast<const std::remove_const_t<particle::PtrPumped::element_type>>(c.s); double v=pp->getV_Class(); sr_assume_lt(0,p.p.uNot*v); ParticleOrthogonalToCavity ia(as<mode::Ptr>(mode0(3)),pp,static_cast<const particlecavity::ParsOrthogonal&>(p.p)); double hf=ia.highestFrequency(); sr_le(p.p.uNot*v,hf*hf,"particle across cavity"); break;}
  case 8: {PAlong pa, pb; pa.p.uNot=sr_pos("x"); pb.p.uNot=sr_pos("y"); pa.p.kCav=pb.p.kCav=1; pa.p.modeCav=pb.p.modeCav=MFT_SIN; ParticleTwoModes ia(as<mode::Ptr>(mode0(2)),as<mode::Ptr>(mode0(2)),as<particle::Ptr>(particleCase(2,false,0,1,false)),pa.p,pb.p,0.); notBelow(ia.highestFrequency(),{pa.p.uNot,pb.p.uNot},"particle and two modes"); break;}
  }
}
SR_SCENARIO(systems) { // two or three parts and what couples them: the highest of all
  C g=sr_cvar("g"); sr_assume_ne(g.real(),0); auto q=qbitCase(false,false,false,0); auto m=modeCase(false,false,sr_thorough(),false,false,3,0); auto ia=jaynescummings::make(as<qbit::Ptr>(q),as<mode::Ptr>(m),g);
  auto chk=[&](double hf, std::vector<double> parts) {double one=1; for (double x : parts) {sr_le(x,hf,"none is higher"); one=one*(x-hf);} sr_eq(one,0.,"it is one of those of the parts");};
  vector<double> parts{q.s->highestFrequency(),m.s->highestFrequency(),ia->highestFrequency()};
  if (sr_choice(2,"three parts")) {auto n=modeCase(false,false,false,false,false,2,0); C u=sr_cvar("u"); sr_assume_ne(u.real(),0); auto ib=coupledmodes::make<coupledmodes::CM_NX>(as<mode::Ptr>(m),as<mode::Ptr>(n),u); parts.push_back(n.s->highestFrequency()); parts.push_back(ib->highestFrequency()); chk(composite::make(composite::_<0,1>(ia),composite::_<1,2>(ib))->highestFrequency(),parts);}
  else {chk(binary::make(ia)->highestFrequency(),parts); chk(composite::make(composite::_<0,1>(ia))->highestFrequency(),parts);}
}
