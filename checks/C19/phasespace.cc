// Quasi-probability distributions of a mode over phase space
#include "qh.h"
#include "DistributionFunctions.h"
#include "MathExtensions.h"
#include <sstream>
using namespace qh; using quantumdata::wignerFunction; using quantumdata::qFunction;
namespace {
// <n| 1/pi D(alpha) (-1)^N D^+(alpha) |m>, by normal ordering: exp(2 alpha a^+) (-1)^N exp(2 alpha^* a) exp(-2 |alpha|^2)
C kernel(int n, int m, C al) {
  auto f=[](int k) {double r=1; for (int i=2;i<=k;++i) r*=i; return r;}; auto pw=[](C z, int k) {C r=1; for (int i=0;i<k;++i) r=r*z; return r;};
  C s=0; for (int k=0;k<=std::min(n,m);++k) s+=((k%2 ? -1. : 1.)*std::sqrt(f(n))*std::sqrt(f(m))/(f(k)*f(n-k)*f(m-k)))*(pw(2.*al,n-k)*pw(2.*std::conj(al),m-k)); return s;
}
double wigner(const M& rho, C al, int dim) {C s=0; for (int n=0;n<dim;++n) for (int m=0;m<dim;++m) s+=kernel(n,m,al)*rho(m,n); return s.real()*std::exp(-2*(al.real()*al.real()+al.imag()*al.imag()))/cppqedutils::PI;}
double husimi(const M& rho, C al) {V c(rho.n); double f=1; C p=1; for (int i=0;i<rho.n;++i) {if (i) {p=p*al; f*=i;} c[i]=(1/std::sqrt(f))*p;} C s=0; for (int i=0;i<rho.n;++i) for (int j=0;j<rho.n;++j) s+=std::conj(c[i])*rho(i,j)*c[j]; return s.real()*std::exp(-(al.real()*al.real()+al.imag()*al.imag()));}
C point() {switch (sr_choice(6,"point")) {case 0: {double x=sr_var("x"), y=sr_var("y"); sr_assume_ne(y,0); return C(x,y);} case 1: return sr_pos("x"); case 2: return -sr_pos("x"); case 3: return C(0,sr_pos("y")); case 4: return C(0,-sr_pos("y")); default: return 0;}}
}
SR_SCENARIO(wigner_function) {
  int n=1+sr_choice(sr_thorough() ? 5 : 4,"cutoff"); C al=point(); M r=hsym(n,"r"); auto rho=dop<1>(r,dims<1>({n})); sr_eq(wignerFunction(rho,al.real(),al.imag()),wigner(r,al,n),"Wigner function"); eq(mat<1>(rho.getArray()),r,"the density operator is not touched");
}
SR_SCENARIO(wigner_function_truncated) {
  int n=3, t=sr_choice(5,"truncation"); C al=point(); M r=hsym(n,"r"); auto rho=dop<1>(r,dims<1>({n})); sr_eq(wignerFunction(rho,al.real(),al.imag(),t),wigner(r,al,t && t<n ? t : n),"truncated Wigner function");
}
SR_SCENARIO(wigner_function_of_pure_state) {int n=3; C al=point(); V v=vsym(n,"p"); auto psi=sv<1>(v,dims<1>({n})); sr_eq(wignerFunction(static_cast<const quantumdata::LazyDensityOperator<1>&>(psi),al.real(),al.imag()),wigner(dyad(v,v),al,n),"Wigner function of a pure state");}
SR_SCENARIO(q_function) {
  int n=1+sr_choice(4,"cutoff"); C al=point(); M r=hsym(n,"r"); auto rho=dop<1>(r,dims<1>({n})); sr_eq(qFunction(rho,al.real(),al.imag(),0),husimi(r,al),"Q function"); eq(mat<1>(rho.getArray()),r,"the density operator is not touched");
}
SR_SCENARIO(q_function_of_pure_state) {int n=3; C al=point(); V v=vsym(n,"p"); auto psi=sv<1>(v,dims<1>({n})); sr_eq(qFunction(static_cast<const quantumdata::LazyDensityOperator<1>&>(psi),al.real(),al.imag(),0),husimi(dyad(v,v),al),"Q function of a pure state");}
SR_SCENARIO(scan) { // the region asked for is covered row by row
  parameters::Table t; quantumdata::ParsFunctionScan p(t); bool sx=sr_choice(2,"symmetric in x"), sy=sr_choice(2,"symmetric in y"); p.fLimitXUL=sx ? .5 : 0; p.fLimitYUL=sy ? .75 : 0; p.fLimitXL=-.25; p.fLimitXU=.75; p.fLimitYL=-1; p.fLimitYU=.25; p.fStep=.25; p.fCutoff=7; int rho=42;
  vector<std::pair<double,double>> seen; bool ok=true; std::ostringstream os; quantumdata::scanFunction([&](int r, double x, double y, int c) {ok=ok && r==42 && c==7; seen.push_back({x,y}); return 8*x+y;},rho,os,p);
  vector<std::pair<double,double>> ref; std::ostringstream ro; for (double x=sx ? -.5 : -.25;x<(sx ? .5 : .75);x+=.25) {for (double y=sy ? -.75 : -1;y<(sy ? .75 : .25);y+=.25) {ref.push_back({x,y}); ro<<x<<"\t"<<y<<"\t"<<8*x+y<<std::endl;} ro<<std::endl;}
  sr_check(ok,"state and cutoff passed on"); sr_check(seen==ref,"points"); sr_check(os.str()==ro.str(),"table");
}
