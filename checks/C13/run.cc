// Driving a trajectory: advancing to exact times, streaming, saving of the state, continuation, automatic stopping
#include "qh.h"
#include "Trajectory.h"
#include "Simulated_.h"
#include <unistd.h>
#include <cstdlib>
#include <filesystem>
#include <fstream>
using namespace qh;
using namespace cppqedutils;
namespace {
struct Event {char what; double t;}; // 's': streamed, 'w': state written, 'r': state read, 'l': logged at the end
struct Log {vector<Event> e; int steps=0, maxSteps=6, perAdvance=0; vector<double> wanted;};
struct Endless {};
// any trajectory that proceeds by steps of its own
struct Stepping {
  using StreamedArray=DArray<1>; Log* log; double t, did=0, label; int limit; // limit: steps per call before the interval is completed
  Stepping(Log& l, double t0, int lim) : log(&l), t(t0), label(sr_var("label")), limit(lim) {}
  double getTime() const {return t;} double getDtDid() const {return did;}
  int left=0; bool last=false;
  void step(double deltaT, std::ostream& os) {
    if (++log->steps>40) {sr_check(false,"run comes to an end"); throw Endless();}
    sr_lt(0,deltaT,"only steps forward"); log->wanted.push_back(deltaT); string n="dt"+std::to_string(log->steps);
    double dt; if (++left>=limit || sr_choice(2,("complete"+std::to_string(log->steps)).c_str())) {dt=deltaT; left=0;} else {dt=sr_pos(n.c_str()); sr_assume_lt(dt,deltaT);}
    t+=dt; did=dt; os<<"some message\n";
  }
  std::ostream& streamParameters(std::ostream& os) const {return os<<"parameters\n";} std::ostream& streamKey(std::ostream& os) const {return os<<"key\n";} std::ostream& logOnEnd(std::ostream& os) const {log->e.push_back({'l',t}); return os<<"log\n";}
  std::tuple<std::ostream&,DArray<1>> stream(std::ostream& os, int) const {log->e.push_back({'s',t}); DArray<1> a(2); a=label,t; return {os,a};}
  iarchive& readFromArrayOnlyArchive(iarchive& ar) {return ar & label;}
  template<typename A> A& stateIO(A& ar) {ar & label & t & did; log->e.push_back({A::is_saving::value ? 'w' : 'r',t}); return ar;}
};
// any trajectory that can only be advanced
struct Advancing {
  using StreamedArray=DArray<1>; Log* log; double t, did=0, label;
  Advancing(Log& l, double t0) : log(&l), t(t0), label(sr_var("label")) {}
  double getTime() const {return t;} double getDtDid() const {return did;}
  void advance(double deltaT, std::ostream& os) {if (++log->steps>40) {sr_check(false,"run comes to an end"); throw Endless();} log->wanted.push_back(deltaT); t+=deltaT; did=deltaT; os<<"advanced\n";}
  std::ostream& streamParameters(std::ostream& os) const {return os<<"parameters\n";} std::ostream& streamKey(std::ostream& os) const {return os<<"key\n";} std::ostream& logOnEnd(std::ostream& os) const {log->e.push_back({'l',t}); return os<<"log\n";}
  std::tuple<std::ostream&,DArray<1>> stream(std::ostream& os, int) const {log->e.push_back({'s',t}); DArray<1> a(2); a=label,t; return {os,a};}
  iarchive& readFromArrayOnlyArchive(iarchive& ar) {return ar & label;}
  template<typename A> A& stateIO(A& ar) {ar & label & t & did; log->e.push_back({A::is_saving::value ? 'w' : 'r',t}); return ar;}
};
// in the symbolic run the engine keeps the files of different paths apart in this very directory
struct Scratch {string d; Scratch() {if (sr_is_native()) {char b[]="srrunXXXXXX"; d=mkdtemp(b);} else {std::error_code e; d="srfs"; std::filesystem::create_directory(d,e);}} ~Scratch() {std::error_code e; if (sr_is_native()) std::filesystem::remove_all(d,e);} string operator()(const string& f) const {return d+"/"+f;}};
struct Silence {std::ostringstream o; std::streambuf* b; Silence() : b(std::cout.rdbuf(o.rdbuf())) {} ~Silence() {std::cout.rdbuf(b);}};
int dataLines(const string& s) {std::istringstream i(s); string l; int n=0; while (std::getline(i,l)) if (l.size() && l[0]!='#') ++n; return n;}
string slurp(const string& f) {std::ifstream i(f); std::ostringstream o; o<<i.rdbuf(); return o.str();}
vector<double> at(const Log& l, char w) {vector<double> r; for (auto& e : l.e) if (e.what==w) r.push_back(e.t); return r;}
void same(const vector<double>& a, const vector<double>& b, const string& l) {sr_check(a.size()==b.size(),"number of "+l); for (size_t i=0;i<a.size()&&i<b.size();++i) sr_eq(a[i],b[i],l);}
} // anonymous
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<Stepping> {static auto _() {return SerializationMetadata{"double","Stepping",1};}};
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<Advancing> {static auto _() {return SerializationMetadata{"double","Advancing",1};}};
namespace {
using trajectory::run;
auto noop=trajectory::autostopHandlerNoOp;
template<typename RES> void returned(const RES& res, const vector<double>& streams, double label) {
  vector<double> ts; for (auto& r : res) {ts.push_back(std::get<0>(r)); sr_check(std::get<2>(r).size()==2,"data returned"); sr_eq(std::get<2>(r)(0),label,"data returned"); sr_eq(std::get<2>(r)(1),std::get<0>(r),"data returned belong to their time");} same(ts,streams,"times returned");
}
// what is to be saved: stream number k (0-based) is accompanied by a state if k is a multiple of sdf; at the end always, once
vector<double> saves(const vector<double>& streams, int sdf, bool first, bool finalIsExtra=false) {
  vector<double> r; int n=streams.size()-finalIsExtra; for (int k=0;k<n;++k) if (sdf && k%sdf==0 && (k || first)) r.push_back(streams[k]);
  bool done=!finalIsExtra && sdf && (n-1)%sdf==0 && (n-1 || first); if (!done) r.push_back(streams.back()); return r;
}
void toEndTime(int maxIntervals, int limit, bool file, int sdf, bool first) {
  Silence si; Scratch sc; Log log; double t0=sr_var("t0"), Dt=sr_pos("Dt"), T=sr_var("T"); sr_assume_lt(t0,T); sr_assume_ne(T,0.); sr_assume_le(T,t0+maxIntervals*Dt); Stepping tr(log,t0,limit);
  auto res=run(tr,T,Dt,unsigned(sdf),file ? sc("o") : string(),string(),6,true,first,string("command line"),true,true,noop);
  vector<double> expect; for (double t=t0;;t+=Dt) {if (!(t<T)) {expect.push_back(T); break;} expect.push_back(t);}
  same(at(log,'s'),expect,"times of streaming"); sr_eq(tr.t,T,"the end time is reached exactly"); returned(res,expect,tr.label);
  if (file) same(at(log,'w'),saves(expect,sdf,first),"times of state saving"); else sr_check(true,"");
  sr_check(at(log,'l').size()==1,"one log at the end"); string out=file ? slurp(sc("o")) : si.o.str(); sr_check(dataLines(out)==int(expect.size()),"one line of data per streaming, everything else commented");
}
} // anonymous
SR_SCENARIO(end_time) {toEndTime(3,2,false,0,true);}
SR_SCENARIO(end_time_file) {toEndTime(3,1,true,sr_choice(4,"sdf"),sr_choice(2,"first"));}
SR_SCENARIO(number_of_intervals) {
  Silence si; Scratch sc; Log log; double t0=sr_nonneg("t0"), Dt=sr_pos("Dt"); long n=1+sr_choice(3,"n"); int sdf=sr_choice(3,"sdf"); bool first=sr_choice(2,"first"); Stepping tr(log,t0,n>2 ? 1 : 2);
  auto res=run(tr,n,Dt,unsigned(sdf),sc("o"),string(),6,true,first,string(),true,true,noop);
  vector<double> expect; for (int k=0;k<=n;++k) expect.push_back(t0+k*Dt);
  same(at(log,'s'),expect,"times of streaming"); returned(res,expect,tr.label); same(at(log,'w'),saves(expect,sdf,first),"times of state saving"); sr_check(dataLines(slurp(sc("o")))==int(n)+1,"one line of data per streaming, everything else commented");
}
SR_SCENARIO(advance_only) {
  Silence si; Log log; double t0=sr_nonneg("t0"), Dt=sr_pos("Dt"), T=sr_var("T"); sr_assume_lt(t0,T); sr_assume_le(T,t0+3*Dt); Advancing tr(log,t0);
  auto res=run(tr,T,Dt,0u,string(),string(),6,false,true,string(),true,true,noop);
  vector<double> expect; for (double t=t0;;t+=Dt) {if (!(t<T)) {expect.push_back(T); break;} expect.push_back(t);}
  same(at(log,'s'),expect,"times of streaming"); returned(res,expect,tr.label);
}
namespace {
void bySteps(int maxSteps, bool file) {
  Silence si; Scratch sc; Log log; double t0=sr_nonneg("t0"), T=sr_var("T"); sr_assume_lt(t0,T); int dc=1+sr_choice(3,"dc"), sdf=file ? sr_choice(3,"sdf") : 0; bool first=file ? sr_choice(2,"first") : true;
  struct Tr : Stepping {using Stepping::Stepping; vector<double> times; void step(double d, std::ostream& os) {Stepping::step(d,os); times.push_back(t);}};
  struct R {}; Stepping tr(log,t0,maxSteps);
  auto res=run(tr,T,dc,unsigned(sdf),file ? sc("o") : string(),string(),6,true,first,string(),true,true,noop);
  // every step is offered the whole remaining time
  vector<double> times{t0}; for (size_t i=0;i<log.wanted.size();++i) times.push_back(T-log.wanted[i]); // times[i+1]: time at which step i began
  sr_eq(tr.t,T,"the end time is reached exactly"); vector<double> after; for (size_t i=2;i<times.size();++i) after.push_back(times[i]); after.push_back(T); if (log.wanted.size()) sr_eq(times[1],t0,"the first step begins at the beginning, with the whole time to cover");
  vector<double> expect{t0}; bool extra=false; for (size_t i=0;i<after.size();++i) if ((i+1)%dc==0) expect.push_back(after[i]); if (after.size()%dc) {expect.push_back(T); extra=true;}
  same(at(log,'s'),expect,"times of streaming"); returned(res,expect,tr.label);
  if (file) {same(at(log,'w'),saves(expect,sdf,first,extra),"times of state saving"); sr_check(dataLines(slurp(sc("o")))==int(expect.size()),"one line of data per streaming, everything else commented");}
}
} // anonymous
SR_SCENARIO(by_steps) {bySteps(4,false);}
SR_SCENARIO(by_steps_file) {bySteps(3,true);}
// nothing to do
SR_SCENARIO(already_there) {
  Silence si; Log log; double t0=sr_pos("t0"), T=sr_pos("T"); sr_assume_le(T,t0); Stepping tr(log,t0,1); auto res=run(tr,T,.5,1u,string(),string(),6,true,true,string(),true,true,noop);
  sr_check(log.e.empty() && !log.steps && res.empty() && si.o.str().empty(),"nothing happens once the end time has passed"); sr_eq(tr.t,t0,"time unchanged");
}
SR_SCENARIO(zero_time) {
  Silence si; Log log; Stepping tr(log,0.,1); auto res=run(tr,0.,.5,1u,string(),string(),6,true,true,string(),true,true,noop); same(at(log,'s'),{0.},"times of streaming"); sr_check(!log.steps,"no step over zero time"); returned(res,{0.},tr.label);
}
SR_SCENARIO(no_streaming) {
  Silence si; Log log; double T=sr_pos("T"); sr_assume_lt(T,2.); Stepping tr(log,0.,1); auto res=run(tr,T,1.,0u,string(),string(),6,true,true,string(),false,false,noop); sr_check(res.empty(),"nothing returned"); sr_check(si.o.str().empty(),"nothing streamed"); sr_eq(tr.t,T,"the end time is reached exactly");
}
// the advance functions
SR_SCENARIO(advance_exactly) {
  Log log; double t0=sr_var("t0"), d=sr_pos("d"); Stepping tr(log,t0,3); std::ostringstream os; advance(tr,d,os); sr_eq(tr.t,t0+d,"advanced by exactly the interval"); double e=sr_pos("e"); advanceTo(tr,t0+d+e,os); sr_eq(tr.t,t0+d+e,"advanced to exactly the time");
  double sum=0; sr_eq(log.wanted[0],d,"first step is offered the whole interval"); (void)sum;
}
// continuation from the state file
namespace {
void continuing(bool steps, int sdf1, bool interim) {
  Silence si; Scratch sc; double label, T1=sr_pos("T1"), T2=sr_var("T2"), Dt=1; sr_assume_lt(T1,T2); sr_assume_le(T1,1.); sr_assume_le(T2,T1+2.); Log a; double did;
  {Stepping tr(a,0.,2); if (steps) run(tr,T1,2,unsigned(sdf1),sc("o"),string(),6,true,true,string("first"),true,false,noop); else run(tr,T1,Dt,unsigned(sdf1),sc("o"),string(),6,true,true,string("first"),true,false,noop); label=tr.label; did=tr.did;}
  int lines=dataLines(slurp(sc("o"))); sr_check(lines==int(at(a,'s').size()),"lines of the first run");
  Log b; Stepping tr(b,sr_pos("other"),1); vector<double> expect{};
  auto res=run(tr,T2,Dt,unsigned(interim ? 1 : 0),sc("o"),string(),6,true,true,string("second"),true,true,noop);
  auto reads=at(b,'r'); sr_check(reads.size()==at(a,'w').size(),"all saved states are found"); if (reads.size()) sr_eq(reads.back(),T1,"the last state read is that at the end of the first run");
  sr_eq(tr.label,label,"continues with the saved state"); for (double t=T1+Dt;;t+=Dt) {if (!(t<T2)) {expect.push_back(T2); break;} expect.push_back(t);}
  same(at(b,'s'),expect,"times of streaming when continuing"); returned(res,expect,label); sr_check(dataLines(slurp(sc("o")))==lines+int(expect.size()),"lines appended, the first instant not repeated");
  same(at(b,'w'),interim ? expect : vector<double>{T2},"times of state saving when continuing");
  Log c; Stepping z(c,0.,1); auto r2=run(z,T2,Dt,0u,sc("o"),string(),6,true,true,string(),true,true,noop); sr_check(!c.steps && at(c,'s').empty() && r2.empty(),"nothing to do when the end time has been reached"); sr_eq(z.t,T2,"state at the end of the second run"); sr_eq(z.label,label,"state at the end of the second run");
  // the state file as initial condition of a new run
  Log d; Stepping q(d,0.,1); run(q,T2+.5,Dt,0u,sc("p"),sc("o.state"),6,true,true,string(),true,false,noop); same(at(d,'s'),{T2,T2+.5},"times of streaming from an initial state file"); sr_eq(q.label,label,"state from an initial state file");
}
} // anonymous
SR_SCENARIO(continuation) {continuing(false,0,false);}
SR_SCENARIO(continuation_interim_states) {continuing(false,1,true);}
SR_SCENARIO(continuation_by_steps) {continuing(true,1,false);}
// dispatch by parameters
SR_SCENARIO(modes) {
  Silence si; Log log; parameters::Table p; trajectory::Pars<> q(p); int mode=sr_choice(6,"mode"); double Dt=sr_pos("Dt"), T=sr_pos("T"); sr_assume_lt(Dt,T); sr_assume_le(T,2*Dt); q.T=T; q.streamInfo=false;
  Stepping tr(log,0.,1); Advancing ad(log,0.); bool thrown=false; vector<double> expect;
  try {
    if (mode==0) {q.dc=1; q.Dt=Dt; q.NDt=3; run(tr,q,noop,true,true); expect={0,T};}
    else if (mode==1) {q.dc=0; q.Dt=Dt; q.NDt=3; run(tr,q,noop,true,true); expect={0,Dt,2*Dt,3*Dt};}
    else if (mode==2) {q.dc=0; q.Dt=Dt; q.NDt=0; run(tr,q,noop,true,true); expect={0,Dt,T};}
    else if (mode==3) {q.dc=0; q.Dt=0; q.NDt=0; run(tr,q,noop,true,true);}
    else if (mode==4) {q.dc=5; q.Dt=Dt; q.NDt=0; run(ad,q,noop,true,true); expect={0,Dt,T};}
    else {q.dc=5; q.Dt=0; q.NDt=0; run(ad,q,noop,true,true);}
  } catch (const std::runtime_error&) {thrown=true;}
  sr_check(thrown==(mode==3 || mode==5),"zero interval refused"); if (!thrown) same(at(log,'s'),expect,"times of streaming");
}
// automatic stopping
namespace {
void autostop(int n, int rep, int calls, bool tiny) {
  double eps=sr_pos("eps"), epsAbs=sr_pos("epsAbs"); trajectory::AutostopHandlerGeneric<DArray<1>> h(eps,epsAbs,rep); vector<vector<double>> seen;
  for (int c=0;c<calls;++c) {
    DArray<1> a(n); vector<double> v; for (int i=0;i<n;++i) {double x=sr_pos(("v"+std::to_string(c)+"_"+std::to_string(i)).c_str()); if (tiny) {if (sr_choice(2,("tiny"+std::to_string(c)).c_str())) {sr_assume_lt(x,epsAbs); a(i)=sr_choice(2,("neg"+std::to_string(c)).c_str()) ? -x : x; v.push_back(epsAbs); continue;}} sr_assume_lt(epsAbs,x); a(i)=x; v.push_back(x);}
    DArray<1> b(a.copy()); bool stop=false; try {h(a);} catch (const trajectory::StoppingCriterionReachedException&) {stop=true;}
    for (int i=0;i<n;++i) sr_eq(a(i),b(i),"streamed data untouched");
    bool expect=false;
    if (rep && c>rep) { // the very first one is disregarded
      expect=true; for (int i=0;i<n;++i) {double av=0; for (int j=c-rep;j<c;++j) av+=seen[j][i]/rep; double d=av-v[i]; if (!(d<eps*(av+v[i]) && -d<eps*(av+v[i]))) expect=false;}
    }
    sr_check(stop==expect,"stops exactly when the data repeat within precision"); if (stop) return; seen.push_back(v);
  }
}
} // anonymous
SR_SCENARIO(autostop_one) {autostop(1,1,4,false);}
SR_SCENARIO(autostop_average) {autostop(1,2,5,false);}
SR_SCENARIO(autostop_two_values) {autostop(2,1,3,false);}
SR_SCENARIO(autostop_tiny_values) {autostop(1,1,3,true);}
SR_SCENARIO(autostop_off) {autostop(1,0,4,false);}
SR_SCENARIO(autostop_in_run) {
  Silence si; Scratch sc; Log log; Stepping tr(log,0.,1); int k=sr_choice(4,"k"), calls=0; int sdf=sr_choice(3,"sdf"); auto h=[&](const DArray<1>&) {if (calls++==k) throw trajectory::StoppingCriterionReachedException();}; double Dt=sr_pos("Dt");
  auto res=run(tr,10*Dt,Dt,unsigned(sdf),sc("o"),string(),6,true,true,string(),true,true,h); vector<double> expect; for (int i=0;i<=k;++i) expect.push_back(i*Dt); same(at(log,'s'),expect,"times of streaming until stopped"); same(at(log,'w'),saves(expect,sdf,true),"times of state saving until stopped"); returned(res,expect,tr.label); sr_check(at(log,'l').size()==1,"one log at the end");
}
