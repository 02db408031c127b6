// Entanglement measures: what is handed to the eigenvalue solver, what is made of the eigenvalues, and how the measures are streamed
#include "../common/abstract.h"
#include "EntanglementMeasures.h"
#include "DensityOperatorStreamer.h"
#include "Master.h"
#include "AveragingUtils.h"
using namespace qh;
using Eigen::given; using Eigen::Given;
namespace {
typedef vector<int> Is;
Is ints(int n, const Is& d) {Is x(d.size()); for (int i=int(d.size())-1;i>=0;--i) {x[i]=n%d[i]; n/=d[i];} return x;}
int flatten(const Is& x, const Is& d) {int n=0; for (size_t i=0;i<d.size();++i) n=n*d[i]+x[i]; return n;}
M pt(const M& rho, const Is& which, const Is& d) {M r(rho.n); for (int i=0;i<rho.n;++i) for (int j=0;j<rho.n;++j) {Is x=ints(i,d), y=ints(j,d); for (int k : which) std::swap(x[k],y[k]); r(flatten(x,d),flatten(y,d))=rho(i,j);} return r;}
// the same matrix, or its transpose (which has the same eigenvalues)
void sameSpectrum(const Given& g, const M& ref, const string& l) {
  sr_check(g.n==ref.n,l+": size of the matrix diagonalised"); if (g.n!=ref.n) return; int n=ref.n; int a=-1,b=-1;
  for (int i=0;i<n && a<0;++i) for (int j=i+1;j<n;++j) {a=i; b=j; break;}
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) {C m=g.m[i*n+j]; sr_eq(m.real(),ref(i,j).real(),l+": matrix diagonalised"); if (a>=0) sr_eq(m.imag()*ref(a,b).imag(),ref(i,j).imag()*g.m[a*n+b].imag(),l+": matrix diagonalised");}
  if (a>=0) {double x=g.m[a*n+b].imag(), y=ref(a,b).imag(); sr_eq(x*x,y*y,l+": matrix diagonalised");}
}
M state(int n, const string& l) {M r=hsym(n,l); double t=1; for (int i=1;i<n;++i) t-=r(i,i).real(); r(0,0)=t; return r;} // Hermitian with unit trace
double negative(const vector<double>& ev) {double s=0; for (double e : ev) if (e<0) s-=e; return s;}
double entropyOf(const vector<double>& ev) {double s=0; for (double e : ev) if (e>0) s-=e*log(e); return s;}
// all but the first few eigenvalues are positive
void positiveBut(int k) {Eigen::onSolve()=[k](Given& g) {for (size_t i=k;i<g.ev.size();++i) sr_assume_lt(0,g.ev[i]);};}
void fresh() {given().clear(); Eigen::onSolve()=nullptr;}
template<int R, int... P> void negativity(const Dims<R>& d, const Is& which, const Is& di, int free) {
  fresh(); positiveBut(free); int n=total<R>(d); M r=state(n,"r"); auto rho=dop<R>(r,d); double x=quantumdata::negPT(rho,tmptools::Vector<P...>{}); eq(mat<R>(rho.getArray()),r,"the density operator is not touched");
  sr_check(given().size()==1,"one diagonalisation"); if (given().size()!=1) return; sameSpectrum(given()[0],pt(r,which,di),"negativity"); sr_eq(x,negative(given()[0].ev),"negativity is the sum of the moduli of the negative eigenvalues");
}
template<int R, int... P> void mutual(const Dims<R>& d, const Is& which, const Is& rest, const Is& di, int free) {
  fresh(); positiveBut(free); int n=total<R>(d); M r=state(n,"r"); auto rho=dop<R>(r,d); double x=quantumdata::mutualInformation(rho,tmptools::Vector<P...>{}); eq(mat<R>(rho.getArray()),r,"the density operator is not touched");
  sr_check(given().size()==3,"three diagonalisations"); if (given().size()!=3) return; M a=reduced(r,which,di), b=reduced(r,rest,di); bool used[3]={}; double s=0;
  auto part=[&](const M& m, double sign, const string& l) {for (int k=0;k<3;++k) if (!used[k] && given()[k].n==m.n) {used[k]=true; sameSpectrum(given()[k],m,l); s+=sign*entropyOf(given()[k].ev); return;} sr_check(false,l+" diagonalised");};
  part(a,1,"entropy of the subsystem"); part(b,1,"entropy of the rest"); part(r,-1,"entropy of the whole"); sr_eq(x,s,"mutual information");
}
template<int R, int... P> void purities(const Dims<R>& d, const Is& which, const Is& di) {
  fresh(); int n=total<R>(d); M r=hsym(n,"r"); auto rho=dop<R>(r,d); M a=reduced(r,which,di); sr_eq(quantumdata::purityOfPartialTrace(rho,tmptools::Vector<P...>{}),tr(a*a).real(),"purity of the partial trace"); sr_check(given().empty(),"no diagonalisation needed");
}
} // anonymous
SR_SCENARIO(negativity_two_by_two) {auto d=dims<2>({2,2}); if (sr_choice(2,"which")) negativity<2,1>(d,{1},{2,2},4); else negativity<2,0>(d,{0},{2,2},4);}
SR_SCENARIO(negativity_two_by_three) {auto d=dims<2>({2,3}); if (sr_choice(2,"which")) negativity<2,1>(d,{1},{2,3},2); else negativity<2,0>(d,{0},{2,3},2);}
SR_SCENARIO(negativity_three_subsystems) {
  auto d=dims<3>({2,2,2}); Is di{2,2,2};
  switch (sr_choice(6,"which")) {case 0: negativity<3,0>(d,{0},di,1); break; case 1: negativity<3,1>(d,{1},di,1); break; case 2: negativity<3,2>(d,{2},di,1); break; case 3: negativity<3,0,2>(d,{0,2},di,1); break; case 4: negativity<3,2,1>(d,{1,2},di,1); break; case 5: negativity<3,0,1>(d,{0,1},di,1);}
}
SR_SCENARIO(negativity_none) {fresh(); auto rho=dop<2>(state(4,"r"),dims<2>({2,2})); sr_eq(quantumdata::negPT(rho,tmptools::V_Empty{}),0.,"no partition, no negativity");}
SR_SCENARIO(entropy) {
  fresh(); int n=2+sr_choice(2,"levels"); M r=hsym(n,"r"); auto rho=dop<1>(r,dims<1>({n})); double s=quantumdata::entropy(rho); sr_check(given().size()==1,"one diagonalisation"); if (given().size()!=1) return; sameSpectrum(given()[0],r,"entropy"); sr_eq(s,entropyOf(given()[0].ev),"von Neumann entropy");
}
SR_SCENARIO(entropy_two_subsystems) {fresh(); positiveBut(1); M r=hsym(6,"r"); auto rho=dop<2>(r,dims<2>({2,3})); double s=quantumdata::entropy(rho); sr_check(given().size()==1,"one diagonalisation"); if (given().size()!=1) return; sameSpectrum(given()[0],r,"entropy"); sr_eq(s,entropyOf(given()[0].ev),"von Neumann entropy");}
SR_SCENARIO(mutual_information) {auto d=dims<2>({2,3}); if (sr_choice(2,"which")) mutual<2,1>(d,{1},{0},{2,3},sr_choice(2,"one negative")); else mutual<2,0>(d,{0},{1},{2,3},sr_choice(2,"one negative"));}
SR_SCENARIO(mutual_information_three_subsystems) {auto d=dims<3>({2,1,3}); Is di{2,1,3}; if (sr_choice(2,"which")) mutual<3,0>(d,{0},{1,2},di,0); else mutual<3,1,2>(d,{1,2},{0},di,0);}
SR_SCENARIO(purity) {
  switch (sr_choice(5,"which")) {case 0: purities<2,0>(dims<2>({2,3}),{0},{2,3}); break; case 1: purities<2,1>(dims<2>({2,3}),{1},{2,3}); break; case 2: purities<3,0,2>(dims<3>({2,2,2}),{0,2},{2,2,2}); break; case 3: purities<3,1>(dims<3>({2,3,1}),{1},{2,3,1}); break; case 4: purities<3,2,0>(dims<3>({2,2,1}),{2,0},{2,2,1});}
}
namespace {
struct Two : structure::Averaged<2> {
  mutable M seen; Dims<2> d=dims<2>({2,2}); private:
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override {os<<i++<<". first\n"; os<<i++<<". second\n"; return os;}
  size_t nAvr_v() const override {return 2;}
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<2>& l) const override {seen=lazyM<2>(l,d); structure::Averages a(2); a(0)=t; a(1)=seen(1,1).real(); return a;}
  void process_v(structure::Averages&) const override {}
  std::ostream& stream_v(const structure::Averages&, std::ostream& os, int) const override {return os<<"a b";}
};
struct QS2 : structure::QuantumSystem<2>, Two {QS2() : structure::QuantumSystem<2>(structure::QuantumSystem<2>::Dimensions(dims<2>({2,2}))) {} private: double highestFrequency_v() const override {return 1;} std::ostream& streamParameters_v(std::ostream& os) const override {return os;}};
struct NoEngine {template<typename SYS> void step(double, std::ostream&, SYS, double&, CArray<4>&) {} double getDtDid() const {return 0;} double getDtTry() const {return 0;} std::ostream& streamParameters(std::ostream& os) const {return os;} std::ostream& logOnEnd(std::ostream& os) const {return os;} template<typename A> A& stateIO(A& ar) {return ar;}};
template<typename F, typename K> void streamed(const M& r, int bits, double t, F stream, K key, bool averages) {
  positiveBut(0); auto res=stream(); auto& a=std::get<1>(res); int n0=averages ? 2 : 0, n=n0+(bits&1)+(bits>>1&1)+(bits>>2&1); sr_check(int(a.size())==n,"number of values"); if (int(a.size())!=n) return;
  if (averages) {sr_eq(a(0),t,"averages come first"); sr_eq(a(1),r(1,1).real(),"averages come first");} Is di{2,2}; int k=n0; size_t g=0;
  if (bits&1) {sr_check(given().size()>g,"negativity calculated"); if (given().size()<=g) return; sameSpectrum(given()[g],pt(r,{0},di),"negativity"); double x=0; for (double e : given()[g].ev) x+=e<0 ? -e : 0.; sr_eq(a(k++),x,"negativity streamed"); ++g;}
  if (bits&2) {sr_check(given().size()>=g+3,"mutual information calculated"); if (given().size()<g+3) return; double s=0; for (int j=0;j<3;++j) s+=(given()[g+j].n==4 ? -1 : 1)*entropyOf(given()[g+j].ev); sr_eq(a(k++),s,"mutual information streamed"); g+=3;}
  if (bits&4) {M p=reduced(r,{0},di); sr_eq(a(k++),tr(p*p).real(),"purity streamed");}
  string s=key(); auto has=[&](const string& w) {return s.find(w)!=string::npos;}; int i=3+n0; if (averages) sr_check(has("3. first\n4. second\n"),"key of the averages"); 
  auto numbered=[&](const string& w) {return has(std::to_string(i++)+". "+w);};
  if (bits&1) sr_check(numbered("negativity"),"key of the negativity"); else sr_check(!has("negativity"),"key of the negativity");
  if (bits&2) sr_check(numbered("mutual information"),"key of the mutual information"); else sr_check(!has("mutual"),"key of the mutual information");
  if (bits&4) sr_check(numbered("purity"),"key of the purity"); else sr_check(!has("purity"),"key of the purity");
}
} // anonymous
SR_SCENARIO(streamer) {
  fresh(); int bits=sr_choice(8,"switches"); bool averages=sr_choice(2,"averages"); M r=state(4,"r"); auto rho=dop<2>(r,dims<2>({2,2})); double t=sr_var("t"); auto av=averages ? std::make_shared<Two>() : nullptr; quantumtrajectory::DensityOperatorStreamer<2,tmptools::Vector<0>> s(av,quantumtrajectory::EntanglementMeasuresSwitch(bits)); std::ostringstream os;
  streamed(r,bits,t,[&] {return s(t,rho,os,6);},[&] {std::ostringstream k; size_t i=3; s.streamKey(k,i); sr_check(i==size_t(3+(averages ? 2 : 0)+(bits&1)+(bits>>1&1)+(bits>>2&1)),"key enumerates the values"); return k.str();},averages);
}
SR_SCENARIO(streamer_unpartitioned) {
  fresh(); int bits=sr_choice(8,"switches"); M r=state(4,"r"); auto rho=dop<2>(r,dims<2>({2,2})); quantumtrajectory::DensityOperatorStreamer<2,tmptools::V_Empty> s(std::make_shared<Two>(),quantumtrajectory::EntanglementMeasuresSwitch(bits)); std::ostringstream os, k; double t=sr_var("t"); auto res=s(t,rho,os,6); sr_check(std::get<1>(res).size()==2 && given().empty(),"without partition only the averages are streamed"); size_t i=3; s.streamKey(k,i); sr_check(i==5,"key");
}
SR_SCENARIO(master) {
  fresh(); int bits=sr_choice(8,"switches"); M r=state(4,"r"); auto sys=std::make_shared<QS2>(); quantumtrajectory::Master<2,NoEngine,tmptools::Vector<0>> m(structure::QuantumSystemPtr<2>(sys),dop<2>(r,dims<2>({2,2})),NoEngine{},quantumtrajectory::EntanglementMeasuresSwitch(bits)); std::ostringstream os;
  streamed(r,bits,0.,[&] {return m.stream(os,6);},[&] {std::ostringstream k; m.streamKey(k); return k.str();},true);
}
namespace {
template<int P> void reducedNegativity(bool copy) {
  fresh(); auto d=dims<2>({2,2}); ReducedDensityOperatorNegativity<2,tmptools::Vector<P>> a0("x",d); std::unique_ptr<const structure::ClonableElementAveraged<2>> k(a0.clone()); const structure::Averaged<2>& a=copy ? static_cast<const structure::Averaged<2>&>(*k) : a0; sr_check(a.nAvr()==17,"number of values"); if (a.nAvr()!=17) return;
  M r=state(4,"r"); auto check=[&](const M& m, const quantumdata::LazyDensityOperator<2>& l) {
    auto x(a.average(0,l)); sr_check(x.size()==17,"number of values"); if (x.size()!=17) return; auto elements=[&](const string& s) {int q=0; for (int i=0;i<4;++i) sr_eq(x(q++),m(i,i).real(),s); for (int i=0;i<4;++i) for (int j=i+1;j<4;++j) {sr_eq(x(q++),m(i,j).real(),s); sr_eq(x(q++),m(i,j).imag(),s);}};
    elements("matrix elements"); a.process(x); elements("matrix elements after processing"); sr_check(given().size()==1,"one diagonalisation"); if (given().size()!=1) return; sameSpectrum(given()[0],pt(m,{P},{2,2}),"negativity"); sr_eq(x(16),negative(given()[0].ev),"negativity appended");
  };
  check(r,dop<2>(r,d)); std::ostringstream os; size_t i=1; a.streamKey(os,i); sr_check(i==18,"key enumerates the values");
}
}
SR_SCENARIO(reduced_negativity) {bool c=sr_choice(2,"copy"); positiveBut(4); if (sr_choice(2,"which")) reducedNegativity<1>(c); else reducedNegativity<0>(c);}
