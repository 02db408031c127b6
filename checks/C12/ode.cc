// The adaptive ODE engines: how they drive a controlled stepper, and how the steppers are set up for the array types
#include "qh.h"
#include "ODE.h"
#include "ODE_GSL.h"
#include "Simulated_.h"
using namespace qh;
using namespace cppqedutils;
namespace {
struct Shared {std::function<bool(double& x, double& t, double& dt)> act; int n=0; double eps[2];};
// any controlled stepper
struct Fake {
  using time_type=double; Shared* s=nullptr;
  template<typename SYS> auto try_step(SYS sys, double& x, double& t, double& dt) {
    double y=x, f=sr_var("garbage"); double at=sr_var(("at"+std::to_string(s->n)).c_str()); sys(y,f,at); sr_eq(f,3*x+at,"derivative passed through"); ++s->n;
    return s->act(x,t,dt) ? boost::numeric::odeint::success : boost::numeric::odeint::fail;
  }
};
Shared shared;
} // anonymous
template<> struct cppqedutils::ode_engine::MakeControlledErrorStepper<Fake> {
  static auto _(double a, double b) {shared.eps[0]=a; shared.eps[1]=b; return ControlledErrorStepperWithParameters<Fake>{Fake{&shared},a,b};}
};
namespace {
double ab(double x) {return x<0 ? -x : x;}
string num(const string& s, const string& what) {size_t i=s.find(what); if (i==string::npos) return "none"; i+=what.size(); size_t j=i; while (j<s.size() && isdigit(s[j])) ++j; return s.substr(i,j-i);}
struct Drive {
  ode_engine::Base<Fake> e; double t, x; std::ostringstream os; int rejections; int steps=0, failed=0, calls=0;
  Drive(double init, int r) : e(init,1,1.,2.), t(sr_var("t")), x(sr_var("x")), rejections(r) {shared.n=0; sr_eq(e.getDtTry(),init,"first try as given"); sr_eq(e.getDtDid(),0.,"no step done yet"); sr_eq(shared.eps[0],1.,"parameters passed on"); sr_eq(shared.eps[1],2.,"parameters passed on");}
  // dir: direction of the step
  void step(int k, int dir) {
    string l=std::to_string(k); double want=sr_pos(("want"+l).c_str()); if (dir<0) want=-want; double before=t, x0=x, tryB=e.getDtTry(), didB=e.getDtDid();
    vector<double> tried; double proposal=0, result=0; bool accepted=false;
    shared.act=[&](double& xx, double& tt, double& dt) {
      int i=tried.size(); string q=l+"_"+std::to_string(i); sr_eq(tt,before,"every try from the same time"); sr_eq(xx,x0,"every try from the same state");
      sr_check(!accepted,"no step beyond the accepted one"); if (accepted) throw std::runtime_error("runaway");
      if (i) sr_eq(dt,tried.back()*.5,"next try as proposed by the stepper after a rejection"); else {
        sr_lt(0,dir*dt,"first try in the direction of the interval"); sr_le(dir*dt,dir*want,"first try never beyond the interval");
        double lim; if ((tryB>0)==(want>0)) lim=ab(tryB); else lim=didB==0 ? ab(tryB) : ab(didB);
        sr_le(dir*dt,lim,"first try not larger than proposed"); sr_eq((dir*dt-lim)*(dt-want),0.,"size of the first try");
      }
      tried.push_back(dt);
      if (i<rejections && sr_choice(2,("reject"+q).c_str())) {dt=dt*.5; return false;}
      tt+=dt; xx=result=sr_var(("y"+l).c_str()); proposal=sr_pos(("p"+q).c_str()); if (dir<0) proposal=-proposal; dt=proposal; accepted=true; return true;
    };
    auto sys=[](const double& y, double& f, double tt) {f=3*y+tt;};
    e.step(want,os,sys,t,x);
    sr_check(accepted,"step done"); if (!accepted) return;
    sr_eq(t,before+tried.back(),"time advanced by the accepted step"); sr_eq(e.getDtDid(),tried.back(),"step size reported"); sr_eq(x,result,"state of the accepted step");
    // the proposal of the stepper governs the next try, except that a tiny interval must not ruin the step size
    if (10*dir*want<ab(tryB)) sr_eq(e.getDtTry(),tryB,"tiny intervals leave the next try alone"); else sr_eq(e.getDtTry(),proposal,"next try as proposed by the stepper");
    ++steps; failed+=tried.size()-1; calls+=tried.size();
    std::ostringstream o; e.logOnEnd(o); sr_check(num(o.str(),"Total number of ODE steps: ")==std::to_string(steps),"number of steps logged"); sr_check(num(o.str(),"Number of failed ODE steps: ")==std::to_string(failed),"number of failed steps logged"); sr_check(num(o.str(),"calculating RHS for ODE: ")==std::to_string(calls),"number of derivative calls logged");
  }
};
} // anonymous
SR_SCENARIO(drive_forward) {Drive d(sr_pos("dtInit"),2); d.step(0,1); d.step(1,1);}
SR_SCENARIO(drive_forward_three) {Drive d(sr_pos("dtInit"),0); d.step(0,1); d.step(1,1); d.step(2,1);}
SR_SCENARIO(drive_back_and_forth) {Drive d(sr_pos("dtInit"),0); for (int i=0;i<3;++i) d.step(i,sr_choice(2,("back"+std::to_string(i)).c_str()) ? -1 : 1);}
SR_SCENARIO(drive_backward_rejections) {Drive d(sr_pos("dtInit"),1); d.step(0,1); d.step(1,-1); d.step(2,-1);}
// the step sizes may be adjusted from outside
SR_SCENARIO(drive_adjusted) {
  Drive d(sr_pos("dtInit"),0); d.step(0,1); double a=sr_pos("a"), b=sr_pos("b"); d.e.setDtTry(a); d.e.setDtDid(b); sr_eq(d.e.getDtTry(),a,"set"); sr_eq(d.e.getDtDid(),b,"set"); d.step(1,sr_choice(2,"back") ? -1 : 1);
}
SR_SCENARIO(log_level) {
  ode_engine::Base<Fake> e(1.,0,1.,2.); std::ostringstream os; e.logOnEnd(os); sr_check(os.str().empty(),"nothing logged below level 1");
}

// ---- Boost
namespace {
// Cash-Karp scheme
const double ca[6]={0,1./5,3./10,3./5,1,7./8};
const double cb[6][5]={{},{1./5},{3./40,9./40},{3./10,-9./10,6./5},{-11./54,5./2,-70./27,35./27},{1631./55296,175./512,575./13824,44275./110592,253./4096}};
const double cc[6]={37./378,0,250./621,125./594,0,512./1771};
const double dc[6]={cc[0]-2825./27648,0,cc[2]-18575./48384,cc[3]-13525./55296,-277./14336,cc[5]-1./4};
struct Stop {};
double mag(double x) {return ab(x);} double mag(C x) {return sqrt(x.real()*x.real()+x.imag()*x.imag());}
template<typename T> T any(const string& n, bool positive=false) {if constexpr (std::is_same_v<T,double>) {if (positive) return sr_pos(n.c_str());} else if (positive) return T(sr_pos(n.c_str()),0.); if constexpr (std::is_same_v<T,double>) return sr_var(n.c_str()); else return sr_cvar(n);}
template<typename E, typename ARR> void boostStep(ARR y, int n, bool negative=false, bool distinct=false) {
  using T=typename ARR::T_numtype; double eps=sr_pos("eps"), epsAbs=distinct ? sr_pos("epsAbs") : eps, h=sr_pos("h"), t0=sr_var("t"), t=t0; if (negative) h=-h; std::ostringstream os;
  auto get=[n](const ARR& a) {vector<T> r; for (auto i=a.begin();i!=a.end();++i) r.push_back(*i); sr_check(int(r.size())==n,"size of the arrays"); r.resize(n); return r;};
  {int i=0; for (auto& v : y) v=any<T>("y"+std::to_string(i++),n>1 || distinct);} auto y0=get(y);
  E e(h,0,eps,epsAbs); string tol=distinct ? " (relative and absolute tolerance)" : ""; vector<vector<T>> k; 
  auto accept=[&]() { // the error estimate relative to tolerance
    bool ok=true; for (int i=0;i<n;++i) {T d=0; for (int j=0;j<6;++j) d+=dc[j]*h*k[j][i]; double lim=epsAbs+eps*(mag(y0[i])+ab(h)*mag(k[0][i])); if (!(mag(d)<=lim)) ok=false;} return ok;};
  bool stopped=false;
  try {
  e.step(2*h,os,[&](const ARR& x, ARR& f, double tt) {
    int s=k.size(); if (s>=6) throw Stop(); auto xs=get(x); sr_eq(tt,t0+ca[s]*h,"time of the stage"); sr_check(int(f.size())==n,"size of the derivative");
    for (int i=0;i<n;++i) {T v=y0[i]; for (int j=0;j<s;++j) v+=h*cb[s][j]*k[j][i]; sr_eq(xs[i],v,"state at the stage");}
    vector<T> kk; int i=0; for (auto& v : f) {v=any<T>("k"+std::to_string(s)+"_"+std::to_string(i++),(n>1 || distinct) && !s); kk.push_back(v);} k.push_back(kk);
  },t,y);
  } catch (const Stop&) {stopped=true;}
  sr_check(k.size()==6,"six stages"); if (k.size()!=6) return; auto y1=get(y);
  if (stopped) {sr_check(!accept(),"only steps with too large error are rejected"+tol); sr_eq(t,t0,"time not advanced by a rejected step"); for (int i=0;i<n;++i) sr_eq(y1[i],y0[i],"rejected step leaves the state alone");}
  else {
    sr_check(accept(),"only steps within the tolerance are accepted"+tol); sr_eq(t,t0+h,"time advanced"); sr_eq(e.getDtDid(),h,"step size reported");
    for (int i=0;i<n;++i) {T v=y0[i]; for (int j=0;j<6;++j) v+=h*cc[j]*k[j][i]; sr_eq(y1[i],v,"result of the step");}
  }
}
} // anonymous
SR_SCENARIO(boost_real) {boostStep<ODE_EngineBoost<DArray<1>>>(DArray<1>(2),2);}
SR_SCENARIO(boost_real_matrix) {boostStep<ODE_EngineBoost<DArray<2>>>(DArray<2>(2,1),2);}
SR_SCENARIO(boost_backward) {boostStep<ODE_EngineBoost<DArray<1>>>(DArray<1>(1),1,true);}
SR_SCENARIO(boost_complex) {boostStep<ODE_EngineBoost<CArray<1>>>(CArray<1>(1),1);}
SR_SCENARIO(tolerances_boost) {boostStep<ODE_EngineBoost<DArray<1>>>(DArray<1>(1),1,false,true);}

// ---- GSL: its functions are replaced by arbitrary outcomes
#include <gsl/gsl_odeiv2.h>
namespace {
struct Gsl {
  double epsAbs=0, epsRel=0, ay=0, adydt=0; int steps=0, adjusts=0, allocated=0, controls=0; size_t dim=0;
  std::function<int(double,double,double*,double*,double*,const gsl_odeiv2_system*)> apply; std::function<int(const double*,const double*,const double*,double*)> adjust;
} gsl;
char stepObject, controlObject, typeObject;
} // anonymous
extern "C" {
const gsl_odeiv2_step_type *gsl_odeiv2_step_rkck=reinterpret_cast<const gsl_odeiv2_step_type*>(&typeObject);
gsl_odeiv2_control* gsl_odeiv2_control_standard_new(double a, double r, double ay, double ad) {gsl.epsAbs=a; gsl.epsRel=r; gsl.ay=ay; gsl.adydt=ad; ++gsl.controls; return reinterpret_cast<gsl_odeiv2_control*>(&controlObject);}
gsl_odeiv2_control* gsl_odeiv2_control_y_new(double a, double r) {return gsl_odeiv2_control_standard_new(a,r,1.,0.);}
gsl_odeiv2_control* gsl_odeiv2_control_yp_new(double a, double r) {return gsl_odeiv2_control_standard_new(a,r,0.,1.);}
void gsl_odeiv2_control_free(gsl_odeiv2_control* c) {sr_check(reinterpret_cast<char*>(c)==&controlObject && gsl.controls>0,"control released once"); --gsl.controls;}
gsl_odeiv2_step* gsl_odeiv2_step_alloc(const gsl_odeiv2_step_type* T, size_t n) {sr_check(T==gsl_odeiv2_step_rkck,"Cash-Karp stepper"); gsl.dim=n; ++gsl.allocated; return reinterpret_cast<gsl_odeiv2_step*>(&stepObject);}
int gsl_odeiv2_step_reset(gsl_odeiv2_step*) {return 0;}
void gsl_odeiv2_step_free(gsl_odeiv2_step*) {sr_check(gsl.allocated>0,"stepper released once"); --gsl.allocated;}
int gsl_odeiv2_step_apply(gsl_odeiv2_step* s, double t, double h, double y[], double yerr[], const double* in, double* out, const gsl_odeiv2_system* d) {
  sr_check(reinterpret_cast<char*>(s)==&stepObject,"stepper allocated"); sr_check(!in,"derivative not handed over"); sr_check(d->dimension==gsl.dim,"dimension"); ++gsl.steps; return gsl.apply(t,h,y,yerr,out,d);}
int gsl_odeiv2_control_hadjust(gsl_odeiv2_control* c, gsl_odeiv2_step* s, const double y[], const double yerr[], const double dydt[], double* h) {
  sr_check(reinterpret_cast<char*>(s)==&stepObject && reinterpret_cast<char*>(c)==&controlObject,"stepper and control allocated"); ++gsl.adjusts; return gsl.adjust(y,yerr,dydt,h);}
}
namespace {
template<typename ARR> void gslSteps(ARR y, int n, int nSteps) {
  using T=typename ARR::T_numtype; constexpr int W=sizeof(T)/sizeof(double); int nd=n*W; gsl=Gsl{}; std::ostringstream os; double t=sr_var("t"), init=sr_pos("dtInit");
  auto flat=[&](const ARR& a) {vector<double> r; for (auto i=a.begin();i!=a.end();++i) {if constexpr (W==1) r.push_back(*i); else {r.push_back(i->real()); r.push_back(i->imag());}} sr_check(int(r.size())==nd,"size of the array"); r.resize(nd); return r;};
  auto shape=y.shape(); {int i=0; for (auto& v : y) v=any<T>("y"+std::to_string(i++));}
  {
  ODE_EngineGSL<ARR> e(init,1,.25,.25); int failures=0, calls=0;
  for (int k=0;k<nSteps;++k) {
    string l=std::to_string(k); double want=sr_pos(("want"+l).c_str()), t0=t, tryB=e.getDtTry(), next=0; auto y0=flat(y); vector<double> y1, err, der, tried; bool adjusted=false, done=false;
    gsl.apply=[&](double tt, double h, double* yy, double* yerr, double* out, const gsl_odeiv2_system* d) {
      int i=tried.size(); string q=l+"_"+std::to_string(i); sr_eq(tt,t0,"step from the current time"); for (int j=0;j<nd;++j) sr_eq(yy[j],y0[j],"step from the current state");
      sr_check(!done,"no step beyond the accepted one");
      if (i) {sr_lt(0,h,"direction of the new try"); sr_lt(h,tried.back(),"smaller try after a failure");} else {sr_le(h,want,"never beyond the interval"); sr_le(h,tryB,"not larger than proposed"); sr_eq((h-want)*(h-tryB),0.,"size of the try");}
      // the right-hand side as GSL sees it
      vector<double> yi, fi(nd,0.); for (int j=0;j<nd;++j) {yi.push_back(sr_var(("a"+q+"_"+std::to_string(j)).c_str())); fi[j]=sr_var(("g"+q+"_"+std::to_string(j)).c_str());}
      double at=sr_var(("at"+q).c_str()); auto yc=yi; sr_check(d->function(at,yi.data(),fi.data(),d->params)==0,"right-hand side succeeds"); ++calls;
      for (int j=0;j<nd;++j) {sr_eq(yi[j],yc[j],"operand untouched"); sr_eq(fi[j],yc[j]*(j/W+1)+at*(j/W+2)*(j%W==0),"right-hand side handed over");}
      tried.push_back(h);
      if (i<1 && sr_choice(2,("fail"+q).c_str())) {++failures; return int(GSL_FAILURE);} done=true;
      for (int j=0;j<nd;++j) {string z=l+"_"+std::to_string(j); y1.push_back(yy[j]=sr_var(("r"+z).c_str())); err.push_back(yerr[j]=sr_var(("e"+z).c_str())); der.push_back(out[j]=sr_var(("d"+z).c_str()));}
      return int(GSL_SUCCESS);
    };
    gsl.adjust=[&](const double* yy, const double* yerr, const double* dd, double* h) {
      sr_check(done && !adjusted,"step size adjusted after the step"); if (!done) return 0; adjusted=true; for (int j=0;j<nd;++j) {sr_eq(yy[j],y1[j],"state for the adjustment"); sr_eq(yerr[j],err[j],"error estimate for the adjustment"); sr_eq(dd[j],der[j],"derivative for the adjustment");}
      sr_eq(*h,tried.back(),"step size to adjust"); next=*h=sr_pos(("next"+l).c_str()); int c=sr_choice(2,("verdict"+l).c_str()); if (!c) sr_assume_lt(tried.back(),next); return c ? GSL_ODEIV_HADJ_NIL : GSL_ODEIV_HADJ_INC;
    };
    e.step(want,os,[&](const ARR& x, ARR& f, double tt) {
      sr_check(all(x.shape()==shape) && all(f.shape()==shape),"shape of the arrays"); int i=0; auto ix=x.begin(); for (auto& v : f) {v=(*ix)*double(i+1)+tt*double(i+2); ++ix; ++i;}
    },t,y);
    sr_check(done && adjusted,"step done"); if (!done) return; auto y2=flat(y); for (int j=0;j<nd;++j) sr_eq(y2[j],y1[j],"state after the step");
    sr_eq(t,t0+tried.back(),"time advanced"); sr_eq(e.getDtDid(),tried.back(),"step size reported"); if (10*want<tryB) sr_eq(e.getDtTry(),tryB,"tiny intervals leave the next try alone"); else sr_eq(e.getDtTry(),next,"next try as adjusted");
  }
  sr_check(gsl.allocated==1,"one stepper for all steps"); std::ostringstream o; e.logOnEnd(o); sr_check(num(o.str(),"Number of failed ODE steps: ")==std::to_string(failures),"number of failed steps logged"); sr_check(num(o.str(),"calculating RHS for ODE: ")==std::to_string(calls),"number of derivative calls logged");
  }
  sr_check(gsl.allocated==0 && gsl.controls==0,"everything released");
}
} // anonymous
SR_SCENARIO(gsl_real) {gslSteps(DArray<1>(2),2,2);}
SR_SCENARIO(gsl_complex) {gslSteps(CArray<1>(2),2,2);}
SR_SCENARIO(gsl_matrix) {gslSteps(CArray<2>(2,1),2,1); gslSteps(DArray<2>(2,2),4,1);}
// an error that cannot be cured by smaller steps is not hidden
SR_SCENARIO(gsl_errors) {
  gsl=Gsl{}; DArray<1> y(1); y=sr_var("y"); double t=0; std::ostringstream os; bool thrown=false; int n=0; ODE_EngineGSL<DArray<1>> e(1.,0,.25,.25); int which=sr_choice(2,"which");
  gsl.apply=[&](double, double, double*, double*, double*, const gsl_odeiv2_system*) {if (++n>3) throw string("endless"); return which ? int(GSL_EFAULT) : int(GSL_EBADFUNC);};
  try {e.step(1.,os,[](const DArray<1>&, DArray<1>&, double) {},t,y);} catch (const std::runtime_error&) {thrown=true;} catch (const string&) {}
  sr_check(thrown,"bad function or bad pointer reported"); sr_eq(t,0.,"time not advanced");
}
SR_SCENARIO(tolerances_gsl) {
  gsl=Gsl{}; double r=sr_pos("epsRel"), a=sr_pos("epsAbs"); ODE_EngineGSL<DArray<1>> e(1.,0,r,a);
  sr_eq(gsl.epsRel,r,"relative tolerance of the GSL control"); sr_eq(gsl.epsAbs,a,"absolute tolerance of the GSL control"); sr_eq(gsl.epsRel*gsl.epsAbs,a*r,"the two tolerances"); sr_eq(gsl.epsRel+gsl.epsAbs,a+r,"the two tolerances"); sr_eq(gsl.ay,1.,"scale by the state"); sr_eq(gsl.adydt,1.,"scale by the derivative");
}
// from the command line
SR_SCENARIO(parameters) {
  parameters::Table p; ode_engine::Pars<> q(p); sr_eq(q.epsRel,1e-6,"default relative precision"); sr_eq(q.epsAbs,1e-12,"default absolute precision"); q.epsRel=sr_pos("r"); q.epsAbs=sr_pos("a"); q.logLevel=0;
  gsl=Gsl{}; ODE_EngineGSL<DArray<1>> e(2.,q); sr_eq(e.getDtTry(),2.,"first try as given"); sr_eq(gsl.epsRel*gsl.epsAbs,q.epsRel*q.epsAbs,"the two tolerances"); sr_eq(gsl.epsRel+gsl.epsAbs,q.epsRel+q.epsAbs,"the two tolerances");
}
