// Composites: the whole is the sum (product, concatenation) of what its parts do on their own subsystems
#include "../common/abstract.h"
#include "BinarySystem.h"
#include "Composite.h"
#include "Composite.tcc"
using namespace qh;
template<int R> struct Whole { // reference: parts with the capability mask and the positions they act on
  vector<int> d;
  struct Part {int mask; vector<int> pos; std::function<M(double,double)> U,H; int nJ,nO; std::function<M(int,double)> J; std::function<M(int,double,const M&)> S; std::function<double(int,double,const M&)> rate,avr; vector<vector<double>>* streamed; string name; double proc; };
  vector<Part> parts;
  template<int Q> void add(int mask, typename Dyn<Q>::P p, vector<int> pos) {
    auto D=d; auto B=[p,pos,D](const M& m) {return embed(m,pos,D);};
    Part x; x.mask=mask; x.pos=pos; x.U=[=](double t, double t0){return B(p->U(t,t0));}; x.H=[=](double t, double t0){return B(p->H(t,t0));}; x.nJ=mask&LI ? p->j0.size() : 0; x.nO=mask&AV ? p->o.size() : 0;
    x.J=[=](int k, double t){return B(p->J(k,t));}; x.S=[=](int k, double t, const M& rho){return C(t)*(B(p->b[k])*rho*B(p->c[k]));};
    x.rate=[=](int k, double t, const M& rho){return p->rate(k,t,reduced(rho,pos,D));}; x.avr=[=](int k, double t, const M& rho){return p->avr(k,t,reduced(rho,pos,D));}; x.streamed=&p->streamed; x.name=p->name; x.proc=p->proc;
    parts.push_back(x);
  }
  int n() const {int r=1; for (int x : d) r*=x; return r;}
  // sparse multiplication
  void check(structure::QuantumSystemPtr<R> q, int what, const string& l) {
    Sys<R> s(q); for (int i=0;i<R;++i) sr_check(s.d(i)==d[i],l+" dimensions");
    int any=0; for (auto& p : parts) any|=p.mask; double t=sr_var("t"), t0=sr_var("t0"); int N=n();
    sr_check(bool(s.w.getEx())==bool(any&EX),l+" has an exact part if any of its parts does"); sr_check(bool(s.w.getHa())==bool(any&HA),l+" has a Hamiltonian if any of its parts does"); sr_check(bool(s.w.getLi())==bool(any&LI),l+" has a Liouvillean if any of its parts does");
    if (what==EX && any&EX) {V psi=vsym(N,"psi"), r=psi; for (auto& p : parts) if (p.mask&EX) r=p.U(t,t0)*r; eq(s.U(t,psi,t0),r,l+" exact part");}
    if (what==HA && any&HA) {V psi=vsym(N,"psi"), acc=vsym(N,"acc"), r=acc; for (auto& p : parts) if (p.mask&HA) r=qh::add(r,p.H(t,t0)*psi); eq(s.H(t,psi,t0,acc),r,l+" Hamiltonian");}
    if (what==LI) {
      int nJ=0; for (auto& p : parts) nJ+=p.nJ; sr_check(s.nJ()==nJ,l+" number of jumps"); if (!nJ || !s.w.getLi()) return;
      V psi=vsym(N,"psi"); M rho=msym(N,"rho"), acc=msym(N,"acc"), sm=hsym(N,"sig");
      auto rv=s.rates(t,psi), rm=s.rates(t,sm); sr_check(int(rv.size())==nJ && int(rm.size())==nJ,l+" number of rates"); if (int(rv.size())!=nJ || int(rm.size())!=nJ) return;
      int k=0; M pp=dyad(psi,psi);
      for (auto& p : parts) for (int i=0;i<p.nJ;++i,++k) {
        string kk=" "+std::to_string(k);
        eq(s.J(t,psi,k),p.J(i,t)*psi,l+" jump"+kk); eq(s.S(t,rho,k,&acc),acc+p.S(i,t,rho),l+" superoperator"+kk);
        sr_eq(rv[k],p.rate(i,t,pp),l+" rate"+kk); sr_eq(rm[k],p.rate(i,t,sm),l+" rate (density operator)"+kk);
      }
    }
    if (what==AV) {
      auto av=s.w.getAv(); int nO=0; for (auto& p : parts) nO+=p.nO; sr_check(bool(av),l+" has averages"); if (!av) return;
      sr_check(int(av->nAvr())==nO,l+" number of averages"); if (int(av->nAvr())!=nO) return;
      M sm=hsym(N,"sig"); V psi=vsym(N,"psi"); auto rho=dop<R>(sm,s.d); auto ps=sv<R>(psi,s.d);
      auto a(av->average(t,rho)), c(av->average(t,ps)); sr_check(int(a.size())==nO && int(c.size())==nO,l+" number of averages"); if (int(a.size())!=nO || int(c.size())!=nO) return;
      vector<double> v; for (int k=0;k<nO;++k) v.push_back(a(k));
      int k=0; M pp=dyad(psi,psi); for (auto& p : parts) for (int i=0;i<p.nO;++i,++k) {sr_eq(a(k),p.avr(i,t,sm),l+" average "+std::to_string(k)); sr_eq(c(k),p.avr(i,t,pp),l+" average (pure) "+std::to_string(k));}
      av->process(a); k=0; vector<double> w(nO);
      for (auto& p : parts) {for (int i=0;i<p.nO;++i,++k) {w[k]=p.proc*v[k]-(i ? v[k-1]*v[k-1] : 0.); sr_eq(a(k),w[k],l+" processed average "+std::to_string(k));}}
      std::ostringstream os; for (auto& p : parts) p.streamed->clear(); av->stream(a,os,0); k=0; string names;
      for (auto& p : parts) if (p.nO) {names+=p.name; sr_check(p.streamed->size()==1 && int(p.streamed->front().size())==p.nO,l+" every part streams its averages"); for (int i=0;i<p.nO;++i,++k) if (p.streamed->size()==1 && int(p.streamed->front().size())==p.nO) sr_eq(p.streamed->front()[i],w[k],l+" streamed average "+std::to_string(k));}
      sr_check(os.str()==names,l+" parts stream in the order of the averages");
      // keys
      std::ostringstream key; size_t i=3; av->streamKey(key,i); sr_check(i==size_t(3+nO),l+" key counts the averages"); size_t at=3, pos=0; string ks=key.str();
      for (auto& p : parts) if (p.mask&AV) {string want=p.name+"A"+std::to_string(at)+"\n"; pos=ks.find(want,pos); sr_check(pos!=string::npos,l+" key in the order of the averages"); if (pos==string::npos) break; at+=p.nO;}
    }
  }
};
static int pick(int which, int what, int others) {return (which ? what : 0)|(others & ~what);}
static void binaryCheck(int what) {
  int d0=2, d1=3; auto p0=std::make_shared<Dyn<1>>(dims<1>({d0}),"a",2,2), p1=std::make_shared<Dyn<1>>(dims<1>({d1}),"b",1,1); auto p01=std::make_shared<Dyn<2>>(dims<2>({d0,d1}),"i",2,2);
  int who=sr_choice(8,"who"), rest=sr_choice(2,"rest"); int o0=rest?15:0, o1=rest?0:AV, oi=rest?AV:0;
  int m0=pick(who&1,what,o0), m1=pick(who&2,what,o1), mi=pick(who&4,what,oi);
  auto f0=tfree(m0,p0), f1=tfree(m1,p1); auto ia=tia<2>(mi,p01,{f0,f1});
  Whole<2> w; w.d={d0,d1}; w.add<1>(m0,p0,{0}); w.add<1>(m1,p1,{1}); w.add<2>(mi,p01,{0,1}); w.check(binary::make(ia),what,"binary");
}
SR_SCENARIO(binary_exact) {binaryCheck(EX);}
SR_SCENARIO(binary_hamiltonian) {binaryCheck(HA);}
SR_SCENARIO(binary_liouvillean) {binaryCheck(LI);}
SR_SCENARIO(binary_averages) {binaryCheck(AV);}
static void compositeCheck(int what, int subset) {
  using composite::_; int da=2, db=3, dc=2;
  auto pa=std::make_shared<Dyn<1>>(dims<1>({da}),"a",2,1), pb=std::make_shared<Dyn<1>>(dims<1>({db}),"b",1,2), pc=std::make_shared<Dyn<1>>(dims<1>({dc}),"c",1,1);
  auto p01=std::make_shared<Dyn<2>>(dims<2>({da,db}),"i",1,1), p20=std::make_shared<Dyn<2>>(dims<2>({dc,da}),"k",2,2); auto p120=std::make_shared<Dyn<3>>(dims<3>({db,dc,da}),"t",1,1);
  int rest=sr_choice(2,"rest"); int o=rest?15:0;
  int ma=pick(subset&1,what,o), mb=pick(subset&2,what,0), mc=pick(subset&4,what,o), m01=pick(subset&8,what,0), m20=pick(subset&16,what,rest?AV:0), m120=pick(subset&32,what,0);
  auto fa=tfree(ma,pa), fb=tfree(mb,pb), fc=tfree(mc,pc);
  auto q=composite::make(_<0,1>(tia<2>(m01,p01,{fa,fb})),_<2,0>(tia<2>(m20,p20,{fc,fa})),_<1,2,0>(tia<3>(m120,p120,{fb,fc,fa})));
  Whole<3> w; w.d={da,db,dc}; w.add<1>(ma,pa,{0}); w.add<1>(mb,pb,{1}); w.add<1>(mc,pc,{2}); w.add<2>(m01,p01,{0,1}); w.add<2>(m20,p20,{2,0}); w.add<3>(m120,p120,{1,2,0});
  w.check(q,what,"composite");
}
static int someSubset() {static const int s[]={63,0,1,2,4,8,16,32,44,19,58,37}; return s[sr_choice(12,"who")];}
SR_SCENARIO(composite_exact) {compositeCheck(EX,someSubset());}
SR_SCENARIO(composite_hamiltonian) {compositeCheck(HA,someSubset());}
SR_SCENARIO(composite_liouvillean) {static const int s[]={63,44,58,16,32}; compositeCheck(LI,s[sr_choice(5,"who")]);}
SR_SCENARIO(composite_averages) {static const int s[]={63,44,58,16,32}; compositeCheck(AV,s[sr_choice(5,"who")]);}
// exact parts that cannot be used with density operators disqualify the whole
SR_SCENARIO(applicable_in_master) {
  auto p0=std::make_shared<Dyn<1>>(dims<1>({2}),"a",0,0), p1=std::make_shared<Dyn<1>>(dims<1>({2}),"b",0,0); auto p01=std::make_shared<Dyn<2>>(dims<2>({2,2}),"i",0,0); 
  int who=sr_choice(8,"who"), fail=sr_choice(8,"fails"); p0->master=!(fail&1); p1->master=!(fail&2); p01->master=!(fail&4);
  int m0=who&1?EX:0, m1=who&2?EX:0, mi=who&4?EX:0; auto f0=tfree(m0,p0), f1=tfree(m1,p1); auto ia=tia<2>(mi,p01,{f0,f1});
  bool want=!(who&fail);
  Sys<2> b(binary::make(ia)); sr_check(b.w.applicableInMaster()==want,"binary");
  Sys<2> c(composite::make(composite::_<0,1>(ia))); sr_check(c.w.applicableInMaster()==want,"composite");
}
// the time scale of the whole is that of its fastest part
SR_SCENARIO(highest_frequency) {
  auto p0=std::make_shared<Dyn<1>>(dims<1>({2}),"a",0,0), p1=std::make_shared<Dyn<1>>(dims<1>({2}),"b",0,0); auto p01=std::make_shared<Dyn<2>>(dims<2>({2,2}),"i",0,0);
  double x=p0->freq=sr_nonneg("x"), y=p1->freq=sr_nonneg("y"), z=p01->freq=sr_nonneg("z"); auto f0=tfree(0,p0), f1=tfree(0,p1); auto ia=tia<2>(0,p01,{f0,f1});
  auto chk=[&](double h, const char* l) {sr_le(x,h,l); sr_le(y,h,l); sr_le(z,h,l); sr_check(h==x || h==y || h==z,string(l)+" attained");};
  chk(binary::make(ia)->highestFrequency(),"binary"); chk(composite::make(composite::_<0,1>(ia))->highestFrequency(),"composite");
}
// subsystems must be the same objects in every interaction
SR_SCENARIO(consistency) {
  auto p0=std::make_shared<Dyn<1>>(dims<1>({2}),"a",0,0), p1=std::make_shared<Dyn<1>>(dims<1>({2}),"b",0,0); auto p01=std::make_shared<Dyn<2>>(dims<2>({2,2}),"i",0,0);
  auto f0=tfree(0,p0), f1=tfree(0,p1), f2=tfree(0,p1); bool thrown=false;
  try {auto c=composite::make(composite::_<0,1>(tia<2>(0,p01,{f0,f1})),composite::_<1,0>(tia<2>(0,p01,{f2,f0})));} catch (const std::exception&) {thrown=true;}
  sr_check(thrown,"inconsistent subsystems are refused");
  thrown=false; try {auto c=composite::make(composite::_<0,1>(tia<2>(0,p01,{f0,f1})),composite::_<1,0>(tia<2>(0,p01,{f1,f0})));} catch (const std::exception&) {thrown=true;}
  sr_check(!thrown,"consistent subsystems are accepted");
}
