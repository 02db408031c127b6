// Expectation values: what is reported is the trace with the named operator, and the named moments after post-processing
#include "../common/frees.h"
#include "../common/abstract.h"
#include "Mode.tcc"
#include "ModeCorrelations.h"
#include "QbitModeCorrelations.h"
#include <sstream>
using namespace qh;
typedef std::function<double(const M&)> Lin;
typedef std::function<vector<double>(vector<double>)> Proc;
static Lin re(const M& o) {return [=](const M& r) {return tr(o*r).real();};}
static Lin im(const M& o) {return [=](const M& r) {return tr(o*r).imag();};}
static M lower(int n) {M a(n); for (int i=1;i<n;++i) a(i-1,i)=sqrt(double(i)); return a;}
static M dg(const V& v) {return diag(v);}
static M proj(int n, int k) {M a(n); a(k,k)=1.; return a;}
static M one(int n) {M r(n); for (int i=0;i<n;++i) r(i,i)=1.; return r;}
static vector<double> same(vector<double> v) {return v;}
// averages of a pure and of a mixed state; post-processing of arbitrary raw values
template<int R> static void check(const structure::Averaged<R>* av, const Dims<R>& d, const vector<Lin>& lin, Proc proc, const string& l, std::function<void(vector<double>&)> raw=[](vector<double>&){}) {
  sr_check(av,l+" has averages"); if (!av) return; int n=lin.size(), N=total<R>(d);
  sr_check(int(av->nAvr())==n,l+" number of averages"); if (int(av->nAvr())!=n) return;
  std::ostringstream key; size_t i=5; av->streamKey(key,i); sr_check(i==size_t(5+n),l+" key enumerates the averages");
  V psi=vsym(N,"psi"); M h=hsym(N,"rho"), pp=dyad(psi,psi); auto p=sv<R>(psi,d); auto r=dop<R>(h,d); double t=sr_var("t");
  {auto a(av->average(t,p)); sr_check(int(a.size())==n,l+" number of averages of a state vector"); if (int(a.size())==n) for (int k=0;k<n;++k) sr_eq(a(k),lin[k](pp),l+" average "+std::to_string(k)+" of a state vector");}
  {auto a(av->average(t,r)); sr_check(int(a.size())==n,l+" number of averages of a density operator"); if (int(a.size())==n) for (int k=0;k<n;++k) sr_eq(a(k),lin[k](h),l+" average "+std::to_string(k)+" of a density operator");}
  vector<double> x; for (int k=0;k<n;++k) x.push_back(sr_var(("x"+std::to_string(k)).c_str())); raw(x);
  structure::Averages a(n); for (int k=0;k<n;++k) a(k)=x[k]; av->process(a); auto y=proc(x); for (int k=0;k<n;++k) sr_eq(a(k),y[k],l+" processed average "+std::to_string(k));
}
static const structure::Averaged<1>* avOf(const structure::QuantumSystem<1>* q) {return dynamic_cast<const structure::Averaged<1>*>(q);}
static vector<Lin> modeLin(int n) {M a=lower(n), N=dag(a)*a; return {re(N),re(N*N),re(a),im(a)};}
static vector<Lin> quadLin(int n) {auto v=modeLin(n); M a=lower(n); v.push_back(re(a*a)); v.push_back(im(a*a)); v.push_back([](const M&){return 0.;}); return v;}
static vector<double> modeProc(vector<double> x) {x[1]-=x[0]*x[0]; return x;}
// X=(a+a†)/√2, Y=(a-a†)/(√2 i)
static vector<double> quadProc(vector<double> x) {double r=x[4], i=x[5]; x=modeProc(x); x[4]=x[0]+.5+r-2*x[2]*x[2]; x[5]=x[0]+.5-r-2*x[3]*x[3]; x[6]=i-2*x[2]*x[3]; return x;}
template<typename A> static mode::Ptr mk(int n) {
  parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=n; p.delta=sr_var("delta"); p.kappa=0; p.eta=0; p.nTh=0; int v=sr_choice(4,"variant"); if (v&1) p.kappa=sr_pos("kappa"); if (v&2) p.eta=dcomp(sr_pos("eta"),1.);
  QM_Picture q=sr_choice(2,"picture") ? QMP_IP : QMP_SCH; return mode::make<A>(p,q);
}
static int cut() {return sr_thorough() ? 5 : 4;}
SR_SCENARIO(mode) {int n=cut(); auto m=mk<mode::Averaged>(n); check<1>(avOf(m.get()),dims<1>({n}),modeLin(n),modeProc,"mode");}
SR_SCENARIO(mode_default) {int n=3; parameters::Table t; mode::Pars p(t); p.cutoff=n; auto m=mode::make(p,QMP_SCH); check<1>(avOf(m.get()),dims<1>({n}),modeLin(n),modeProc,"mode");}
SR_SCENARIO(mode_quadratures) {int n=cut(); auto m=mk<mode::AveragedQuadratures>(n); check<1>(avOf(m.get()),dims<1>({n}),quadLin(n),quadProc,"quadratures");}
SR_SCENARIO(mode_cutoff) {
  int n=cut(); auto m=mk<mode::AveragedMonitorCutoff<>>(n); auto v=modeLin(n); v.push_back(re(proj(n,n-1))); check<1>(avOf(m.get()),dims<1>({n}),v,modeProc,"cutoff monitor");
}
SR_SCENARIO(mode_quadratures_cutoff) {
  int n=cut(); auto m=mk<mode::AveragedMonitorCutoff<mode::AveragedQuadratures>>(n); auto v=quadLin(n); v.push_back(re(proj(n,n-1))); check<1>(avOf(m.get()),dims<1>({n}),v,quadProc,"cutoff monitor with quadratures");
}
static vector<Lin> qbitLin() {M s(2); s(0,1)=1.; return {re(proj(2,0)),re(proj(2,1)),re(s),im(s)};}
SR_SCENARIO(qbit) {int l=sr_choice(2,"lossy"), p=sr_choice(2,"pumped"), nz=sr_choice(2,"noise"); auto c=qbitCase(l,nz,p,sr_choice(2,"picture")); check<1>(avOf(c.s.get()),dims<1>({2}),qbitLin(),same,"qubit");}
SR_SCENARIO(two_level_atom) {auto c=ptlaCase(); check<1>(avOf(c.s.get()),dims<1>({2}),qbitLin(),same,"two-level atom");}
SR_SCENARIO(spin) {
  int twoS=1+sr_choice(4,"twoS-1"), sch=sr_choice(2,"schroedinger"), lossy=sr_choice(2,"lossy"), n=twoS+1; auto c=spinCase(lossy,sch,twoS,0,false);
  V z(n); M p(n); for (int i=0;i<n;++i) {z[i]=i-twoS/2.; if (i<n-1) p(i+1,i)=sqrt(double((twoS-i)*(i+1)));}
  check<1>(avOf(c.s.get()),dims<1>({n}),{re(dg(z)),re(dg(z)*dg(z)),re(p),im(p),re(proj(n,n-1))},modeProc,"spin");
}
SR_SCENARIO(particle) {
  int fin=2+sr_choice(2,"fin-2"), N=1<<fin; auto c=particleCase(fin,sr_choice(2,"pumped"),0,1,sr_choice(2,"schroedinger"));
  auto pb=dynamic_cast<const ParticleBase*>(c.s.get()); sr_check(pb,"particle"); if (!pb) return; const auto& sp=pb->getSpace();
  const double pi=3.14159265358979323846; V k(N), x(N); for (int i=0;i<N;++i) {sr_check(std::abs(sp.k(i)-(i-N/2))<1e-12 && std::abs(sp.x(i)-(-pi+2*pi*i/N))<1e-12,"coordinates"); k[i]=sp.k(i); x[i]=sp.x(i);}
  M F(N); double r=sqrt(.5); const C w[8]={C(1,0),C(r,r),C(0,1),C(-r,r),C(-1,0),C(-r,-r),C(0,-1),C(r,-r)}; // <x_j|k_m>=exp(i k x)/sqrt(N)
  for (int j=0;j<N;++j) for (int m=0;m<N;++m) {int ph=((m-N/2)*(j-N/2)*(8/N))%8; F(j,m)=w[(ph+8)%8]/sqrt(double(N));}
  M X=dag(F)*dg(x)*F, X2=dag(F)*dg(x)*dg(x)*F;
  check<1>(avOf(c.s.get()),dims<1>({N}),{re(dg(k)),re(dg(k)*dg(k)),re(X),re(X2)},[](vector<double> v) {v[1]-=v[0]*v[0]; v[3]=sqrt(v[3]-v[2]*v[2]); return v;},"particle",[](vector<double>& v) {double s=sr_nonneg("variance"); v[3]=v[2]*v[2]+s;});
}
template<int R> static vector<Lin> rdoLin(int n, bool off) {
  vector<Lin> v; for (int i=0;i<n;++i) v.push_back(re(proj(n,i))); if (off) for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) {v.push_back([=](const M& m){return m(i,j).real();}); v.push_back([=](const M& m){return m(i,j).imag();});} return v;
}
SR_SCENARIO(reduced_density_operator) {
  bool off=sr_choice(2,"off-diagonals"); {ReducedDensityOperator<1> a("x",dims<1>({3}),off); check<1>(&a,dims<1>({3}),rdoLin<1>(3,off),same,"reduced density operator");}
  {auto d=dims<2>({2,3}); ReducedDensityOperator<2> a("x",d,off); check<2>(&a,d,rdoLin<2>(6,off),same,"reduced density operator of two subsystems");}
}
SR_SCENARIO(multilevel) {auto c=multilevelCase(sr_choice(3,"configuration"),sr_choice(2,"diffusive")); auto av=avOf(c.s.get()); if (av && av->nAvr()) check<1>(av,dims<1>({3}),rdoLin<1>(3,av->nAvr()==9),same,"multi-level");}
SR_SCENARIO(mode_correlations) {
  int n0=2+sr_choice(2,"n0-2"), n1=3; auto d=dims<2>({n0,n1}); ModeCorrelations mc; M a=kron(lower(n0),one(n1)), b=kron(one(n0),lower(n1));
  vector<Lin> v; for (auto& f : quadLin(n0)) v.push_back([=](const M& r){return f(reduced(r,{0},{n0,n1}));}); for (auto& f : quadLin(n1)) v.push_back([=](const M& r){return f(reduced(r,{1},{n0,n1}));});
  v.push_back(re(dag(a)*b)); v.push_back(im(dag(a)*b)); v.push_back(re(a*b)); v.push_back(im(a*b));
  check<2>(&mc,d,v,[](vector<double> x) {
    vector<double> p(x.begin(),x.begin()+7), q(x.begin()+7,x.begin()+14), r; p=quadProc(p); q=quadProc(q); r=p; r.insert(r.end(),q.begin(),q.end());
    // X Q etc. with X=(a+a†)/√2, Y=(a-a†)/(√2 i)
    r.push_back(x[14]+x[16]-2*x[2]*x[9]); r.push_back(x[15]+x[17]-2*x[2]*x[10]); r.push_back(x[17]-x[15]-2*x[3]*x[9]); r.push_back(x[14]-x[16]-2*x[3]*x[10]); return r;},"mode correlations");
  // the covariances are those of the operators
  M h=hsym(n0*n1,"rho"); auto r=dop<2>(h,d); auto av(mc.average(0.,r)); mc.process(av); C s(1/sqrt(2.)), si=s/C(0,1);
  M X=s*(a+dag(a)), Y=si*(a+C(-1.)*dag(a)), Q=s*(b+dag(b)), P=si*(b+C(-1.)*dag(b)); auto E=[&](const M& o) {return tr(o*h).real();};
  sr_eq(av(14),E(X*Q)-E(X)*E(Q),"<XQ>-<X><Q>"); sr_eq(av(15),E(X*P)-E(X)*E(P),"<XP>-<X><P>"); sr_eq(av(16),E(Y*Q)-E(Y)*E(Q),"<YQ>-<Y><Q>"); sr_eq(av(17),E(Y*P)-E(Y)*E(P),"<YP>-<Y><P>");
}
SR_SCENARIO(qbit_mode_correlations) {
  int n=3+sr_choice(2,"n-3"); auto d=dims<2>({2,n}); QbitModeCorrelations qm; M s(2), z(2); s(0,1)=1.; z(1,1)=.5; z(0,0)=-.5; M a=lower(n);
  vector<Lin> v{re(kron(s,dag(a))),im(kron(s,dag(a))),re(kron(s,a)),im(kron(s,a)),re(kron(z,a)),im(kron(z,a))}; check<2>(&qm,d,v,same,"qubit-mode correlations");
}
SR_SCENARIO(collecting) {
  using namespace averagingUtils; int n=4; Collecting<1>::Collection coll; coll.push_back(new mode::Averaged); coll.push_back(new ReducedDensityOperator<1>("rho",dims<1>({n}),false)); coll.push_back(new mode::AveragedQuadratures);
  Collecting<1> c(coll); auto v=modeLin(n); for (auto& f : rdoLin<1>(n,false)) v.push_back(f); for (auto& f : quadLin(n)) v.push_back(f);
  auto proc=[n](vector<double> x) {vector<double> a(x.begin(),x.begin()+4), b(x.begin()+4+n,x.end()), r; a=modeProc(a); b=quadProc(b); r=a; r.insert(r.end(),x.begin()+4,x.begin()+4+n); r.insert(r.end(),b.begin(),b.end()); return r;};
  check<1>(&c,dims<1>({n}),v,proc,"collection"); std::unique_ptr<const structure::ClonableElementAveraged<1>> k(c.clone()); check<1>(k.get(),dims<1>({n}),v,proc,"copied collection");
}
SR_SCENARIO(transferring) {
  M h=hsym(4,"sys"); auto d=dims<2>({2,2}); auto r=dop<2>(h,d); auto rdo=std::make_shared<ReducedDensityOperator<2>>("rho",d,true); averagingUtils::Transferring<1,2> tr(rdo,r);
  auto lin=rdoLin<2>(4,true); M o=hsym(4,"o"); auto other=dop<1>(o,dims<1>({4})); auto a(tr.average(0,other)); sr_check(int(tr.nAvr())==16 && a.size()==16,"transferred number of averages"); if (a.size()==16) for (int k=0;k<16;++k) sr_eq(a(k),lin[k](h),"transferred average");
}
SR_SCENARIO(clones) { // copies calculate the same as the original, also within collections
  int n=3; auto v=modeLin(n), w=quadLin(n); auto top=re(proj(n,n-1)); auto vc=v, wc=w; vc.push_back(top); wc.push_back(top);
  auto both=[&](const structure::ClonableElementAveraged<1>& a, const vector<Lin>& l, Proc p, const string& s) {std::unique_ptr<const structure::ClonableElementAveraged<1>> k(a.clone()); check<1>(k.get(),dims<1>({n}),l,p,"copy of "+s);};
  switch (sr_choice(6,"which")) {
    case 0: both(mode::Averaged(),v,modeProc,"mode averages"); break; case 1: both(mode::AveragedQuadratures(),w,quadProc,"quadratures"); break;
    case 2: both(mode::AveragedMonitorCutoff<>(),vc,modeProc,"cutoff monitor"); break; case 3: both(mode::AveragedMonitorCutoff<mode::AveragedQuadratures>(),wc,quadProc,"quadratures with cutoff monitor"); break;
    case 4: both(ReducedDensityOperator<1>("r",dims<1>({n}),true),rdoLin<1>(n,true),same,"reduced density operator"); break;
    case 5: {using namespace averagingUtils; Collecting<1>::Collection coll; coll.push_back(new mode::AveragedMonitorCutoff<>); coll.push_back(new ReducedDensityOperator<1>("rho",dims<1>({n}),true)); Collecting<1> c(coll); auto l=vc; for (auto& f : rdoLin<1>(n,true)) l.push_back(f); check<1>(&c,dims<1>({n}),l,[](vector<double> x) {x[1]-=x[0]*x[0]; return x;},"collection with cutoff monitor");}
  }
}
