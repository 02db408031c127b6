// Fourier transformation of states between position and momentum representation, on the grid of the particle
#include "qh.h"
#include "LazyDensityOperatorFFT.h"
#include "Particle_.h"
#include "FFT.tcc"
using namespace qh; using quantumdata::ffTransform; using fft::Direction; using fft::DIR_XK; using fft::DIR_KX;
namespace {
typedef vector<int> Is;
C root(int k, int n) { // exp(2 pi i k/n), n up to 8
  static const double r=std::sqrt(.5); k=((k%n+n)%n)*(8/n); static const double c[]={1,r,0,-r,-1,-r,0,r}; return C(c[k],c[(k+6)%8]);
}
M F(int n, Direction dir) {M f(n); if (n==1) return id(1); double s=1/std::sqrt(double(n)); for (int j=0;j<n;++j) for (int k=0;k<n;++k) f(j,k)=((j+k)%2 ? -s : s)*root(dir==DIR_XK ? -j*k : j*k,n); return f;}
M onAll(const Is& which, const Is& di, Direction dir) {M r=id(1); for (int i=0;i<int(di.size());++i) r=kron(r,std::count(which.begin(),which.end(),i) ? F(di[i],dir) : id(di[i])); return r;}
Direction direction() {return sr_choice(2,"direction") ? DIR_XK : DIR_KX;}
template<int R> Is dimsOf(const Dims<R>& d) {Is r; for (int i=0;i<R;++i) r.push_back(d(i)); return r;}
template<int R, int... P> void pure(const Dims<R>& d) {
  Direction dir=direction(); V v=vsym(total<R>(d),"p"); auto psi=sv<R>(v,d); M f=onAll({P...},dimsOf<R>(d),dir); auto r=ffTransform<tmptools::Vector<P...>>(static_cast<const quantumdata::LazyDensityOperator<R>&>(psi),dir);
  eq(vec<R>(psi.getArray()),v,"the state is not touched"); auto s=dynamic_cast<const quantumdata::StateVector<R>*>(r.get()); sr_check(s,"a state vector is transformed into a state vector"); if (!s) return;
  V w=f*v; eq(vec<R>(s->getArray()),w,"transformed state");
  auto b=ffTransform<tmptools::Vector<P...>>(*r,fft::reverse(dir)); auto sb=dynamic_cast<const quantumdata::StateVector<R>*>(b.get()); if (sb) eq(vec<R>(sb->getArray()),v,"back and forth");
}
template<int R, int... P> void mixed(const Dims<R>& d, bool back) {
  Direction dir=direction(); M m=msym(total<R>(d),"r"); auto rho=dop<R>(m,d); M f=onAll({P...},dimsOf<R>(d),dir); auto r=ffTransform<tmptools::Vector<P...>>(static_cast<const quantumdata::LazyDensityOperator<R>&>(rho),dir);
  eq(mat<R>(rho.getArray()),m,"the density operator is not touched"); auto s=dynamic_cast<const quantumdata::DensityOperator<R>*>(r.get()); sr_check(s,"a density operator is transformed into a density operator"); if (!s) return;
  eq(mat<R>(s->getArray()),f*m*dag(f),"transformed density operator");
  if (!back) return; auto b=ffTransform<tmptools::Vector<P...>>(*r,fft::reverse(dir)); auto sb=dynamic_cast<const quantumdata::DensityOperator<R>*>(b.get()); if (sb) eq(mat<R>(sb->getArray()),m,"back and forth");
}
}
SR_SCENARIO(vector_) {int n=1<<sr_choice(sr_thorough() ? 4 : 4,"size"); Direction dir=direction(); V v=vsym(n,"p"); CArray<1> a(arr<1>(v,dims<1>({n}))); ffTransform(a,dir); eq(vec<1>(a),F(n,dir)*v,"transform");}
SR_SCENARIO(strided) { // columns and reversed parts of larger arrays
  int n=4; Direction dir=direction(); V v=vsym(12,"p"); CArray<2> a(arr<2>(v,dims<2>({4,3}))); CArray<1> col(a(blitz::Range::all(),1)); ffTransform(col,dir); V w(v), in; for (int i=0;i<n;++i) in.push_back(v[3*i+1]); V out=F(n,dir)*in; for (int i=0;i<n;++i) w[3*i+1]=out[i]; eq(vec<2>(a),w,"transform of a column");
}
SR_SCENARIO(plain) { // without the shifts: the bare discrete transform
  int n=1<<(1+sr_choice(3,"size")); Direction dir=direction(); V v=vsym(n,"p"); CArray<1> a(arr<1>(v,dims<1>({n}))); fft::transform(a,dir); V w(n); for (int k=0;k<n;++k) {C s=0; for (int j=0;j<n;++j) s+=root(dir==DIR_XK ? -j*k : j*k,n)*v[j]; w[k]=s;} eq(vec<1>(a),w,"discrete Fourier transform");
  fft::transform(a,fft::reverse(dir)); for (int k=0;k<n;++k) w[k]=double(n)*v[k]; eq(vec<1>(a),w,"there and back multiplies by the size");
}
SR_SCENARIO(refused) {V v=vsym(3,"p"); CArray<1> a(arr<1>(v,dims<1>({3}))); if (sr_is_native()) return; bool thrown=false; try {fft::transform(a,direction());} catch (const std::exception&) {thrown=true;} sr_check(thrown,"a size that is not a power of two is refused");}
SR_SCENARIO(matrix) {int n=1<<sr_choice(3,"size"); Direction dir=direction(); M m=msym(n,"r"); CArray<2> a(arr2<1>(m,dims<1>({n}))); ffTransform(a,dir); M f=F(n,dir); eq(mat<1>(a),f*m*dag(f),"transform of a matrix"); ffTransform(a,fft::reverse(dir)); eq(mat<1>(a),m,"back and forth");}
SR_SCENARIO(unitary) {int n=4; Direction dir=direction(); V v=vsym(n,"p"), u=vsym(n,"q"); CArray<1> a(arr<1>(v,dims<1>({n}))), b(arr<1>(u,dims<1>({n}))); ffTransform(a,dir); ffTransform(b,dir); C s=0, t=0; V x=vec<1>(a), y=vec<1>(b); for (int i=0;i<n;++i) {s+=std::conj(x[i])*y[i]; t+=std::conj(v[i])*u[i];} sr_eq(s,t,"inner product preserved");}
SR_SCENARIO(grid) { // the transformation is that between the position and momentum coordinates of the particle
  for (int fin=2;fin<7;++fin) {
    particle::Spatial s(fin); int n=1<<fin; sr_check(int(s.getDimension())==n && int(s.getK().size())==n && int(s.getFinesse())==fin,"size of the grid");
    for (int j=0;j<n;++j) for (int l=0;l<n;++l) {double ph=s.x(j)*s.k(l)-M_PI*(j+l)-2*M_PI*((long(j)*l)%n)/n; ph/=2*M_PI; sr_check(std::fabs(ph-std::floor(ph+.5))<1e-9,"plane waves on the grid");}
    for (int j=0;j<n;++j) sr_check(std::fabs(s.x(j)-(-M_PI+2*M_PI*j/n))<1e-9 && std::fabs(s.k(j)-(j-n/2))<1e-9,"coordinates");
  }
}
SR_SCENARIO(state_vector) {switch (sr_choice(7,"which")) {case 0: pure<1,0>(dims<1>({4})); break; case 1: pure<2,0>(dims<2>({4,3})); break; case 2: pure<2,1>(dims<2>({3,4})); break; case 3: pure<2,0,1>(dims<2>({2,4})); break; case 4: pure<3,1>(dims<3>({2,4,3})); break; case 5: pure<3,2,0>(dims<3>({2,3,4})); break; case 6: pure<3,0,1,2>(dims<3>({2,4,1}));}}
SR_SCENARIO(density_operator) {switch (sr_choice(6,"which")) {case 0: mixed<1,0>(dims<1>({4}),true); break; case 1: mixed<2,0>(dims<2>({4,2}),false); break; case 2: mixed<2,1>(dims<2>({3,2}),true); break; case 3: mixed<2,0,1>(dims<2>({2,2}),true); break; case 4: mixed<3,1>(dims<3>({2,2,1}),true); break; case 5: mixed<3,2,0>(dims<3>({2,1,2}),true);}}
SR_SCENARIO(pure_as_density_operator) {
  Direction dir=direction(); auto d=dims<2>({2,4}); V v=vsym(8,"p"); auto psi=sv<2>(v,d); quantumdata::DensityOperator<2> rho(psi); auto a=ffTransform<tmptools::Vector<1>>(static_cast<const quantumdata::LazyDensityOperator<2>&>(psi),dir), b=ffTransform<tmptools::Vector<1>>(static_cast<const quantumdata::LazyDensityOperator<2>&>(rho),dir);
  auto at=[&](const quantumdata::LazyDensityOperator<2>& l, int i, int j) {quantumdata::LazyDensityOperator<2>::Idx x(i/4,i%4), y(j/4,j%4); return l(x)(y);}; for (int i=0;i<8;++i) for (int j=0;j<8;++j) sr_eq(at(*a,i,j),at(*b,i,j),"same for a pure state and its dyad");
}
SR_SCENARIO(refused_kind) {
  struct Other : quantumdata::LazyDensityOperator<1> {Other() : quantumdata::LazyDensityOperator<1>(Dimensions(4)) {} const dcomp index(const Idx&, const Idx&) const override {return 0;} double trace_v() const override {return 0;}}; Other o; bool thrown=false; try {ffTransform<tmptools::Vector<0>>(static_cast<const quantumdata::LazyDensityOperator<1>&>(o),DIR_XK);} catch (const std::exception&) {thrown=true;} sr_check(thrown,"other kinds are refused");
}
