// Symbolic-real runtime.  A symbolic double is a NaN whose payload indexes a table of canonical values:
// Laurent "exp-polynomials" with Gaussian-rational coefficients over atoms
//   VAR x | SQRT p | INV p | EXP m (e^m, m a monomial) | EXPI m (e^{im}) | UF name(args)
// i.e. exact real arithmetic. Branches on symbolic comparisons fork(); assertions are discharged by an SMT solver.
#include <execinfo.h>
#include <gmpxx.h>
#include <map>
#include <unordered_map>
#include <vector>
#include <string>
#include <sstream>
#include <fstream>
#include <filesystem>
#include <iostream>
#include <functional>
#include <algorithm>
#include <set>
#include <complex>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cfloat>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <time.h>

using std::string; using std::vector;

extern "C" {
void sr_assume_lt(double,double); void sr_assume_le(double,double); void sr_assume_ne(double,double); void sr_assume_eq(double,double);
}
struct SrScenario;
struct SrReg {const char* name; void (*f)(); SrReg* next;};
extern SrReg* sr_registry;

namespace {

// ---------------------------------------------------------------- numbers
struct Q {mpq_class re, im; bool zero() const {return sgn(re)==0 && sgn(im)==0;}};
inline Q operator+(const Q& a, const Q& b) {return {a.re+b.re,a.im+b.im};}
inline Q operator-(const Q& a) {return {-a.re,-a.im};}
inline Q operator*(const Q& a, const Q& b) {
  if (sgn(a.im)==0 && sgn(b.im)==0) return {a.re*b.re,mpq_class(0)};
  return {a.re*b.re-a.im*b.im,a.re*b.im+a.im*b.re};
}
inline bool operator==(const Q& a, const Q& b) {return a.re==b.re && a.im==b.im;}
Q inv(const Q& a) {mpq_class n=a.re*a.re+a.im*a.im; return {a.re/n,-a.im/n};}

struct Fac {uint32_t atom; int32_t n, d; bool operator==(const Fac& o) const {return atom==o.atom && n==o.n && d==o.d;}
  bool operator<(const Fac& o) const {if (atom!=o.atom) return atom<o.atom; int64_t l=(int64_t)n*o.d, r=(int64_t)o.n*d; return l<r;}};
typedef vector<Fac> Mono;
typedef std::map<Mono,Q> Poly;

enum Kind {VAR,SQRT,INV,EXPR,EXPI,UF,COSA,SINA};
struct Atom {
  Kind k; string name; Poly arg; Mono mono; vector<Poly> args; bool nonneg=false, pos=false; bool isConst=false;
};
vector<Atom> atoms;
std::map<string,uint32_t> atomIdx;

string str(const mpq_class& q) {return q.get_str();}
string str(const Mono& m) {
  std::ostringstream o; for (auto& f : m) {o<<'a'<<f.atom; if (!(f.n==1&&f.d==1)) {o<<'^'<<f.n; if (f.d!=1) o<<'/'<<f.d;} o<<' ';} return o.str();
}
string str(const Poly& p) {
  std::ostringstream o; for (auto& t : p) {o<<'['<<t.second.re; if (sgn(t.second.im)) o<<'+'<<t.second.im<<'i'; o<<' '<<str(t.first)<<']';} return o.str();
}
string pretty(const Poly& p);
string prettyAtom(uint32_t a) {
  const Atom& A=atoms[a];
  switch (A.k) {
    case VAR: return A.name;
    case SQRT: return "sqrt("+pretty(A.arg)+")";
    case INV: return "1/("+pretty(A.arg)+")";
    case EXPR: {Poly p; p[A.mono]=Q{1,0}; return "exp("+pretty(p)+")";}
    case EXPI: {Poly p; p[A.mono]=Q{1,0}; return "expi("+pretty(p)+")";}
    case UF: {string s=A.name+"("; for (auto& x : A.args) s+=pretty(x)+","; return s+")";}
    default: return "a"+std::to_string(a);
  }
}
string pretty(const Poly& p) {
  if (p.empty()) return "0";
  std::ostringstream o; bool first=true; int cnt=0;
  for (auto& t : p) {
    if (++cnt>12) {o<<" + ...("<<p.size()<<" terms)"; break;}
    if (!first) o<<" + "; first=false;
    if (sgn(t.second.im)) o<<'('<<t.second.re<<"+"<<t.second.im<<"i)"; else o<<t.second.re;
    for (auto& f : t.first) {o<<'*'<<prettyAtom(f.atom); if (!(f.n==1&&f.d==1)) {o<<'^'<<f.n; if (f.d!=1) o<<'/'<<f.d;}}
  }
  return o.str();
}

[[noreturn]] void fatal(const string& msg);

uint32_t getAtom(const string& key, const std::function<Atom()>& make) {
  auto it=atomIdx.find(key); if (it!=atomIdx.end()) return it->second;
  atoms.push_back(make()); uint32_t id=atoms.size()-1; atomIdx[key]=id; return id;
}

Poly constant(const mpq_class& q) {Poly p; if (sgn(q)) p[Mono()]=Q{q,0}; return p;}
Poly atomPoly(uint32_t a, int n=1, int d=1) {Poly p; p[Mono{Fac{a,n,d}}]=Q{1,0}; return p;}
bool isConst(const Poly& p) {return p.empty() || (p.size()==1 && p.begin()->first.empty());}
bool isRealConst(const Poly& p, mpq_class& q) {if (p.empty()) {q=0; return true;} if (p.size()==1 && p.begin()->first.empty() && sgn(p.begin()->second.im)==0) {q=p.begin()->second.re; return true;} return false;}

void addTo(Poly& a, const Mono& m, const Q& c) {
  auto [it,ins]=a.try_emplace(m,c);
  if (!ins) {it->second=it->second+c; if (it->second.zero()) a.erase(it);}
  else if (c.zero()) a.erase(it);
}
Poly add(const Poly& a, const Poly& b) {Poly r(a); for (auto& t : b) addTo(r,t.first,t.second); return r;}
Poly neg(const Poly& a) {Poly r; for (auto& t : a) r[t.first]=-t.second; return r;}
Poly sub(const Poly& a, const Poly& b) {Poly r(a); for (auto& t : b) addTo(r,t.first,-t.second); return r;}
Poly scale(const Poly& a, const Q& c) {Poly r; if (c.zero()) return r; for (auto& t : a) r[t.first]=t.second*c; return r;}

// product of monomials; SQRT exponents >=2 are returned as radicand multiplications
Mono mulMono(const Mono& a, const Mono& b, vector<uint32_t>& rads) {
  Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
  auto push=[&](Fac f) {
    if (f.n==0) return;
    if (atoms[f.atom].k==SQRT && f.d==1 && f.n>=2) {int k=f.n/2; for (int q=0;q<k;q++) rads.push_back(f.atom); f.n%=2; if (!f.n) return;}
    r.push_back(f);
  };
  while (i<a.size()||j<b.size()) {
    if (j==b.size() || (i<a.size() && a[i].atom<b[j].atom)) push(a[i++]);
    else if (i==a.size() || b[j].atom<a[i].atom) push(b[j++]);
    else {
      int64_t n=(int64_t)a[i].n*b[j].d+(int64_t)b[j].n*a[i].d, d=(int64_t)a[i].d*b[j].d;
      int64_t g=std::__gcd(n<0?-n:n,d); if (g) {n/=g; d/=g;}
      if (n==0) d=1;
      if (n>INT32_MAX||n<INT32_MIN||d>INT32_MAX) fatal("exponent overflow");
      push(Fac{a[i].atom,(int32_t)n,(int32_t)d}); ++i; ++j;
    }
  }
  return r;
}

size_t termLimit=200000;
Poly mul(const Poly& a, const Poly& b) {
  Poly r;
  if (a.size()*b.size()>4000000) fatal("polynomial product too large");
  for (auto& s : a) for (auto& t : b) {
    vector<uint32_t> rads; Mono m=mulMono(s.first,t.first,rads); Q c=s.second*t.second;
    if (rads.empty()) addTo(r,m,c);
    else {
      Poly p; p[m]=c;
      for (uint32_t x : rads) p=mul(p,atoms[x].arg);
      for (auto& u : p) addTo(r,u.first,u.second);
    }
  }
  if (r.size()>termLimit) fatal("polynomial too large");
  return r;
}
Poly power(const Poly& a, unsigned n) {Poly r=constant(1); for (unsigned i=0;i<n;i++) r=mul(r,a); return r;}

bool varNonneg(uint32_t a) {const Atom& A=atoms[a]; return A.nonneg||A.pos||A.k==EXPR||A.k==SQRT;}
bool hasComplex(const Poly& p) {
  for (auto& t : p) {if (sgn(t.second.im)) return true; for (auto& f : t.first) if (atoms[f.atom].k==EXPI) return true;}
  return false;
}

// ---------------------------------------------------------------- numeric evaluation
typedef long double LD; typedef std::complex<LD> CLD;
struct Point {std::map<uint32_t,LD> v; std::map<uint32_t,CLD> cache;};
CLD evalPoly(const Poly& p, Point& pt, LD* mag=nullptr);
LD ldOf(const mpq_class& q) {
  // long double value of a rational (double quotient refined once)
  mpz_class n=q.get_num(), d=q.get_den();
  long en,ed; double fn=mpz_get_d_2exp(&en,n.get_mpz_t()), fd=mpz_get_d_2exp(&ed,d.get_mpz_t());
  double q0=std::ldexp(fn/fd,en-ed);
  if (!std::isfinite(q0)) return q0;
  mpq_class rest=q-mpq_class(q0);
  return (LD)q0+(LD)rest.get_d();
}
CLD evalAtom(uint32_t a, Point& pt) {
  const Atom& A=atoms[a];
  if (A.k==VAR) return pt.v[a];
  auto it=pt.cache.find(a); if (it!=pt.cache.end()) return it->second;
  CLD r=0;
  switch (A.k) {
    case SQRT: r=std::sqrt(evalPoly(A.arg,pt).real()); break;
    case INV: r=LD(1)/evalPoly(A.arg,pt).real(); break;
    case EXPR: {Poly p; p[A.mono]=Q{1,0}; r=std::exp(evalPoly(p,pt).real()); break;}
    case EXPI: {Poly p; p[A.mono]=Q{1,0}; LD x=evalPoly(p,pt).real(); r=CLD(std::cos(x),std::sin(x)); break;}
    case UF: {
      vector<LD> x; for (auto& q : A.args) x.push_back(evalPoly(q,pt).real());
      if (A.name=="exp") r=std::exp(x[0]); else if (A.name=="log") r=std::log(x[0]); else if (A.name=="sin") r=std::sin(x[0]); else if (A.name=="cos") r=std::cos(x[0]);
      else if (A.name=="pow") r=std::pow(x[0],x[1]); else if (A.name=="atan2") r=std::atan2(x[0],x[1]); else if (A.name=="tan") r=std::tan(x[0]);
      else if (A.name=="atan") r=std::atan(x[0]); else if (A.name=="sinh") r=std::sinh(x[0]); else if (A.name=="cosh") r=std::cosh(x[0]); else if (A.name=="tanh") r=std::tanh(x[0]);
      else if (A.name=="lgamma") r=std::lgamma(x[0]); else if (A.name=="tgamma") r=std::tgamma(x[0]); else if (A.name=="asin") r=std::asin(x[0]); else if (A.name=="acos") r=std::acos(x[0]);
      else if (A.name=="erf") r=std::erf(x[0]); else if (A.name=="pi") r=std::acos((LD)-1);
      else r=NAN;
      break;
    }
    default: r=NAN;
  }
  pt.cache[a]=r; return r;
}
CLD evalPoly(const Poly& p, Point& pt, LD* mag) {
  CLD s=0; LD m=0;
  for (auto& t : p) {
    CLD x(ldOf(t.second.re),ldOf(t.second.im));
    for (auto& f : t.first) {
      CLD b=evalAtom(f.atom,pt);
      if (f.d==1) {int n=f.n; CLD y=1; for (int i=0;i<std::abs(n);i++) y*=b; x*= n<0 ? LD(1)/y : y;}
      else {
        const Atom& A=atoms[f.atom]; LD e=(LD)f.n/f.d;
        if (A.k==EXPR) x*=std::pow(b.real(),e);
        else if (A.k==EXPI) {Poly q; q[A.mono]=Q{1,0}; LD y=evalPoly(q,pt).real()*e; x*=CLD(std::cos(y),std::sin(y));}
        else x*=std::pow(b,CLD(e));
      }
    }
    s+=x; m+=std::abs(x);
  }
  if (mag) *mag=m;
  return s;
}
void collectVars(const Poly& p, std::set<uint32_t>& s, std::set<uint32_t>& seen);
void collectVarsAtom(uint32_t a, std::set<uint32_t>& s, std::set<uint32_t>& seen) {
  if (!seen.insert(a).second) return;
  const Atom& A=atoms[a];
  if (A.k==VAR) {s.insert(a); return;}
  collectVars(A.arg,s,seen);
  for (auto& f : A.mono) collectVarsAtom(f.atom,s,seen);
  for (auto& q : A.args) collectVars(q,s,seen);
}
void collectVars(const Poly& p, std::set<uint32_t>& s, std::set<uint32_t>& seen) {for (auto& t : p) for (auto& f : t.first) collectVarsAtom(f.atom,s,seen);}
bool varFree(const Poly& p) {std::set<uint32_t> s,seen; collectVars(p,s,seen); return s.empty();}

// ---------------------------------------------------------------- boxing
vector<Poly> vals;
std::unordered_map<string,uint32_t> valIdx;
const uint64_t TAG=0xFFFCull<<48;
inline uint64_t bits(double d) {uint64_t b; memcpy(&b,&d,8); return b;}
inline bool boxed(double d) {return (bits(d)>>48)==0xFFFC;}
const Poly& polyOf(double d, Poly& tmp) {
  if (boxed(d)) {uint64_t i=bits(d)&0xFFFFFFFFFFFFull; if (i>=vals.size()) fatal("corrupt symbolic handle"); return vals[i];}
  if (!std::isfinite(d)) fatal("non-finite operand mixed with symbolic value");
  tmp=constant(mpq_class(d)); return tmp;
}
double box(Poly&& p) {
  mpq_class q;
  if (isRealConst(p,q)) {double d=q.get_d(); if (std::isfinite(d) && mpq_class(d)==q) return d;}
  string k=str(p); auto it=valIdx.find(k); uint32_t id;
  if (it!=valIdx.end()) id=it->second; else {id=vals.size(); vals.push_back(std::move(p)); valIdx[k]=id;}
  uint64_t b=TAG|id; double d; memcpy(&d,&b,8); return d;
}

// ---------------------------------------------------------------- path state
enum Op {EQ,NE,LT,LE};
struct Constraint {Op op; Poly p;}; // p op 0
vector<Constraint> pc;
struct Assertion {Op op; Poly a, b; string label;}; // a op b
vector<Assertion> pending;
struct BoolFail {string label;};
vector<BoolFail> boolFails;
vector<std::pair<string,int>> choices;
vector<uint32_t> varOrder;
std::map<string,int> varCount;
std::map<string,int> decided; // canonical condition -> truth on this path
string scenarioName;
vector<string> notes;
vector<string> entered;
long nAsserts=0, nBoolAsserts=0, nQueries=0, nUnsat=0, nSatQ=0, nUnknown=0, nForks=0, nTrivial=0, nRounded=0, nFcmp=0; double solverTime=0;
long maxTerms=0;

struct Shared {volatile long paths, running;};
Shared* shared;
long maxPaths=2000;
string outFile, tmpDir, solver="z3-new", solver2;
int timeoutS=20, feasTimeoutS=8; long qcount=0;
bool gThorough=false;

string jstr(const string& s) {string r="\""; for (char c : s) {if (c=='"'||c=='\\') {r+='\\'; r+=c;} else if (c=='\n') r+="\\n"; else if ((unsigned char)c<32) r+=' '; else r+=c;} return r+"\"";}
void writeRecord(const string& s) {
  int fd=open(outFile.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); flock(fd,LOCK_EX); string t=s+"\n"; size_t o=0; while (o<t.size()) {ssize_t k=write(fd,t.data()+o,t.size()-o); if (k<=0) break; o+=k;} flock(fd,LOCK_UN); close(fd);
}
string choicesJson() {string s="["; for (auto& c : choices) {if (s.size()>1) s+=","; s+="["+jstr(c.first)+","+std::to_string(c.second)+"]";} return s+"]";}
[[noreturn]] void fatal(const string& msg) {
  writeRecord("{\"type\":\"fatal\",\"scenario\":"+jstr(scenarioName)+",\"choices\":"+choicesJson()+",\"msg\":"+jstr(msg)+"}");
  std::cerr<<"SR-FATAL "<<scenarioName<<": "<<msg<<std::endl;
  _exit(3);
}

// ---------------------------------------------------------------- algebra on canonical values
mpq_class content(const Poly& p) { // positive rational content (real coefficients)
  mpz_class g=0,l=1;
  for (auto& t : p) {
    for (const mpq_class* c : {&t.second.re,&t.second.im}) if (sgn(*c)) {
      mpz_class n=abs(c->get_num()); g = sgn(g) ? mpz_class(gcd(g,n)) : n; l=lcm(l,c->get_den());
    }
  }
  if (sgn(g)==0) return 1;
  mpq_class q(g,l); q.canonicalize(); return q;
}
Mono monoGcd(const Poly& p, const std::function<bool(uint32_t)>& ok) {
  std::map<uint32_t,Fac> g; bool first=true;
  for (auto& t : p) {
    std::map<uint32_t,Fac> cur; for (auto& f : t.first) cur[f.atom]=f;
    if (first) {for (auto& c : cur) if (ok(c.first)) g[c.first]=c.second; first=false;}
    else {
      std::set<uint32_t> keys; for (auto& x : g) keys.insert(x.first); for (auto& x : cur) if (ok(x.first)) keys.insert(x.first);
      std::map<uint32_t,Fac> ng;
      for (uint32_t k : keys) {
        Fac a = g.count(k) ? g[k] : Fac{k,0,1}, b = cur.count(k) ? cur[k] : Fac{k,0,1};
        Fac m = ((int64_t)a.n*b.d<(int64_t)b.n*a.d) ? a : b; if (m.n) ng[k]=m;
      }
      // atoms present so far with positive exponent but absent now were handled through Fac{k,0,1}
      g=ng;
    }
  }
  Mono r; for (auto& x : g) r.push_back(x.second); return r;
}
Poly monoPoly(const Mono& m, const Q& c) {Poly p; p[m]=c; return p;}
Poly inverse(const Poly& p);
Poly invMono(const Mono& m) {
  Poly r=constant(1);
  for (auto& f : m) {
    const Atom& A=atoms[f.atom];
    if (A.k==SQRT) {Poly arg=A.arg; Poly s=atomPoly(f.atom); for (int i=0;i<f.n;i++) r=mul(r,mul(s,inverse(arg)));}
    else if (A.k==INV) {Poly arg=A.arg; for (int i=0;i<f.n;i++) r=mul(r,arg);}
    else r=mul(r,atomPoly(f.atom,-f.n,f.d));
  }
  return r;
}
Poly inverse(const Poly& p) {
  if (p.empty()) fatal("division by an identically zero symbolic value");
  if (p.size()==1) {Poly r=invMono(p.begin()->first); return scale(r,inv(p.begin()->second));}
  if (hasComplex(p)) {
    // keep as a whole
    string key="I:"+str(p); uint32_t a=getAtom(key,[&]{Atom A; A.k=INV; A.arg=p; return A;}); return atomPoly(a);
  }
  mpq_class c=content(p); if (sgn(p.begin()->second.re)<0) c=-c;
  Mono g=monoGcd(p,[](uint32_t a){Kind k=atoms[a].k; return k==VAR||k==EXPR;});
  Poly gi=invMono(g);
  Poly prim=mul(scale(p,inv(Q{c,0})),gi);
  if (prim.size()==1) return scale(mul(inverse(prim),gi),inv(Q{c,0}));
  string key="I:"+str(prim);
  uint32_t a=getAtom(key,[&]{Atom A; A.k=INV; A.arg=prim; return A;});
  return scale(mul(atomPoly(a),gi),inv(Q{c,0}));
}

Poly sqrtInt(mpz_class n) { // n>0
  Poly r=constant(1); mpz_class sq=1, rest=1;
  for (unsigned long d=2; d<100000 && mpz_class(d)*d<=n; ++d) {
    int e=0; while (mpz_divisible_ui_p(n.get_mpz_t(),d)) {n/=d; ++e;}
    for (int i=0;i<e/2;i++) sq*=d;
    if (e%2) {uint32_t a=getAtom("S:[c"+std::to_string(d)+"]",[&]{Atom A; A.k=SQRT; A.arg=constant(mpq_class(d)); A.isConst=true; return A;}); r=mul(r,atomPoly(a));}
  }
  if (n>1) {
    mpz_class s=sqrt(n);
    if (s*s==n) sq*=s;
    else {uint32_t a=getAtom("S:[c"+n.get_str()+"]",[&]{Atom A; A.k=SQRT; A.arg=constant(mpq_class(n)); A.isConst=true; return A;}); r=mul(r,atomPoly(a));}
  }
  return scale(r,Q{mpq_class(sq),0});
}
bool decide(Op op, const Poly& p, const char* why);

// exact square root of a polynomial in VARs, if it is a perfect square (tried by leading-term recursion)
bool polySqrtExact(const Poly& p, Poly& res) {
  // only polynomials in VAR atoms with nonneg integer exponents and real coefficients
  for (auto& t : p) {if (sgn(t.second.im)) return false; for (auto& f : t.first) if (atoms[f.atom].k!=VAR||f.d!=1||f.n<0) return false;}
  if (p.empty()) {res=p; return true;}
  // graded-lex leading monomial
  auto deg=[](const Mono& m){int d=0; for (auto& f : m) d+=f.n; return d;};
  auto expOf=[](const Mono& m, uint32_t a){for (auto& f : m) if (f.atom==a) return f.n; return 0;};
  auto less=[&](const Mono& a, const Mono& b){int da=deg(a),db=deg(b); if (da!=db) return da<db; std::set<uint32_t> k; for (auto& f : a) k.insert(f.atom); for (auto& f : b) k.insert(f.atom); for (uint32_t x : k) {int ea=expOf(a,x),eb=expOf(b,x); if (ea!=eb) return ea<eb;} return false;};
  auto lead=[&](const Poly& q){auto it=q.begin(); for (auto j=q.begin(); j!=q.end(); ++j) if (less(it->first,j->first)) it=j; return it;};
  auto l=lead(p);
  if (sgn(l->second.re)<=0) return false;
  mpz_class n=l->second.re.get_num(), d=l->second.re.get_den(); mpz_class sn=sqrt(n), sd=sqrt(d);
  if (sn*sn!=n||sd*sd!=d) return false;
  Mono h; for (auto& f : l->first) {if (f.n%2) return false; h.push_back(Fac{f.atom,f.n/2,1});}
  mpq_class lc(sn,sd); lc.canonicalize();
  Poly r; r[h]=Q{lc,0};
  Poly rem=sub(p,mul(r,r));
  for (int it=0; it<200 && !rem.empty(); ++it) {
    auto q=lead(rem);
    Mono m; // q/(2*lead)
    {std::map<uint32_t,int> e; for (auto& f : q->first) e[f.atom]+=f.n; for (auto& f : h) e[f.atom]-=f.n; for (auto& x : e) {if (x.second<0) return false; if (x.second) m.push_back(Fac{x.first,x.second,1});}}
    Poly t; t[m]=Q{q->second.re/(2*lc),0};
    if (!less(m,h)) return false;
    Poly r2=add(r,t); rem=sub(p,mul(r2,r2)); r=r2;
  }
  if (!rem.empty()) return false;
  res=r; return true;
}

Poly sqrtPoly(const Poly& p) {
  if (p.empty()) return p;
  mpq_class q; 
  if (isRealConst(p,q)) {
    if (sgn(q)<0) fatal("sqrt of a negative constant");
    mpz_class nd=q.get_num()*q.get_den(); Poly r=sqrtInt(nd); return scale(r,Q{mpq_class(1)/mpq_class(q.get_den()),0});
  }
  if (hasComplex(p)) {
    string key="S:"+str(p); uint32_t a=getAtom(key,[&]{Atom A; A.k=SQRT; A.arg=p; return A;}); return atomPoly(a);
  }
  {Poly r; if (p.size()>1 && polySqrtExact(p,r)) {if (!decide(LE,neg(r),"sqrt of a square")) r=neg(r); return r;}}
  mpq_class c=content(p);
  Mono g=monoGcd(p,[](uint32_t a){Kind k=atoms[a].k; return (k==VAR&&varNonneg(a))||k==EXPR;});
  Poly prim=mul(scale(p,inv(Q{c,0})),invMono(g));
  Poly r=sqrtPoly(constant(c));
  for (auto& f : g) {
    if (atoms[f.atom].k==EXPR) {int n=f.n, d=2*f.d; int gg=std::__gcd(std::abs(n),d); r=mul(r,atomPoly(f.atom,n/gg,d/gg));}
    else {
      int e=f.n; int h = (e>=0) ? e/2 : -((-e+1)/2); int rest=e-2*h; // rest in {0,1}
      if (h) r=mul(r,atomPoly(f.atom,h,1));
      if (rest) {Poly x=atomPoly(f.atom); string key="S:"+str(x); uint32_t a=getAtom(key,[&]{Atom A; A.k=SQRT; A.arg=x; return A;}); r=mul(r,atomPoly(a));}
    }
  }
  if (isRealConst(prim,q)) {if (q==1) return r; fatal("sqrt of a negative value");}
  if (prim.size()==1) { // single monomial with vars of unknown sign: pull out even powers through |x|
    Mono m=prim.begin()->first; Q co=prim.begin()->second; bool allEven=true;
    for (auto& f : m) if (f.d!=1||f.n%2||atoms[f.atom].k!=VAR) allEven=false;
    if (allEven && sgn(co.re)>0) {
      for (auto& f : m) {
        Poly x=atomPoly(f.atom); int h=f.n/2;
        if (h%2==0) r=mul(r,atomPoly(f.atom,h,1));
        else {bool ge=decide(LE,neg(x),"sqrt of a square"); r=mul(r,atomPoly(f.atom,h,1)); if (!ge) r=neg(r);}
      }
      return mul(r,sqrtPoly(constant(co.re)));
    }
  }
  string key="S:"+str(prim); uint32_t a=getAtom(key,[&]{Atom A; A.k=SQRT; A.arg=prim; return A;});
  return mul(r,atomPoly(a));
}

Poly ufPoly(const string& n, const vector<Poly>& args) {
  string key="F:"+n; for (auto& a : args) key+="|"+str(a);
  uint32_t a=getAtom(key,[&]{Atom A; A.k=UF; A.name=n; A.args=args; return A;}); return atomPoly(a);
}
bool expSplit(const Poly& p, Kind k, Poly& r) { // e^{p} or e^{ip} as product of atoms
  if (hasComplex(p)) return false;
  for (auto& t : p) if (!t.second.re.get_num().fits_sint_p() || !t.second.re.get_den().fits_sint_p()) return false;
  r=constant(1);
  for (auto& t : p) {
    string key=(k==EXPR ? "E:" : "U:")+str(t.first);
    Mono mm=t.first;
    uint32_t a=getAtom(key,[&]{Atom A; A.k=k; A.mono=mm; return A;});
    r=mul(r,atomPoly(a,(int)t.second.re.get_num().get_si(),(int)t.second.re.get_den().get_si()));
  }
  return true;
}
// terms n*F(...) of p with integer n, where F is the function named: taken out of p, the arguments collected with n
vector<std::pair<uint32_t,int>> splitOff(Poly& p, const char* name) {
  vector<std::pair<uint32_t,int>> res;
  for (auto i=p.begin();i!=p.end();) {
    const Mono& m=i->first; const Q& c=i->second;
    if (m.size()==1 && m[0].n==1 && m[0].d==1 && atoms[m[0].atom].k==UF && atoms[m[0].atom].name==name && sgn(c.im)==0 && c.re.get_den()==1 && abs(c.re)<64) {res.push_back({m[0].atom,(int)c.re.get_num().get_si()}); i=p.erase(i);}
    else ++i;
  }
  return res;
}
Poly integerPower(const Poly& p, int n) {return n>=0 ? power(p,n) : power(inverse(p),-n);}
Poly expPoly(const Poly& p0) {
  Poly r,p=p0; Poly f=constant(1); for (auto& l : splitOff(p,"log")) {Poly q=atoms[l.first].args[0]; f=mul(f,integerPower(q,l.second));} // e^{n log q}=q^n
  if (p.empty()) return f; if (expSplit(p,EXPR,r)) return mul(f,r); return mul(f,ufPoly("exp",{p}));
}
Poly conjU(const Poly& u) {Poly r; for (auto& t : u) {Mono m(t.first); for (auto& f : m) f.n=-f.n; r[m]=Q{t.second.re,-t.second.im};} return r;}
void sincosPoly(const Poly& p0, Poly* s, Poly* c) {
  Poly u,p=p0;
  auto angles=splitOff(p,"atan2");
  if (!angles.empty()) { // cos and sin of n*atan2(y,x) are those of the complex number (x+iy)^n
    Poly cc=constant(1), ss;
    for (auto& l : angles) {
      Poly y=atoms[l.first].args[0], x=atoms[l.first].args[1], h=inverse(sqrtPoly(add(mul(x,x),mul(y,y)))); x=mul(x,h); y=mul(y,h); if (l.second<0) y=neg(y);
      for (int k=0;k<std::abs(l.second);++k) {Poly c1=sub(mul(cc,x),mul(ss,y)); ss=add(mul(cc,y),mul(ss,x)); cc=c1;}
    }
    Poly sp,cp; sincosPoly(p,&sp,&cp);
    if (c) *c=sub(mul(cc,cp),mul(ss,sp)); if (s) *s=add(mul(ss,cp),mul(cc,sp)); return;
  }
  if (p.empty()) {if (s) *s=Poly(); if (c) *c=constant(1); return;}
  if (expSplit(p,EXPI,u)) {
    Poly ub=conjU(u);
    if (c) *c=scale(add(u,ub),Q{mpq_class(1,2),0});
    if (s) *s=scale(sub(u,ub),Q{0,mpq_class(-1,2)});
  } else {if (s) *s=ufPoly("sin",{p}); if (c) *c=ufPoly("cos",{p});}
}

// rewriting with  lm(p)*INV(p) -> (1-rest*INV(p))/lc
Poly reduceInv(Poly p) {
  for (int it=0; it<5000; ++it) {
    bool changed=false;
    for (auto t=p.begin(); t!=p.end(); ++t) {
      for (auto& f : t->first) if (atoms[f.atom].k==INV) {
        const Poly& d=atoms[f.atom].arg; const Mono& lm=d.rbegin()->first; Q lc=d.rbegin()->second;
        if (lm.empty()) continue;
        bool div=true;
        for (auto& g : lm) {bool ok=false; for (auto& h : t->first) if (h.atom==g.atom && h.d==1 && g.d==1 && h.n>=g.n && g.n>0) ok=true; if (!ok) {div=false; break;}}
        if (!div) continue;
        Mono m; for (auto h : t->first) {if (h.atom==f.atom) h.n-=1; for (auto& g : lm) if (g.atom==h.atom) h.n-=g.n; if (h.n) m.push_back(h);}
        Q c=t->second*inv(lc);
        Poly q=atomPoly(f.atom);
        Poly rest=d; rest.erase(std::prev(rest.end()));
        Poly repl=mul(monoPoly(m,c),sub(constant(1),mul(rest,q)));
        p.erase(t);
        for (auto& u : repl) addTo(p,u.first,u.second);
        changed=true; break;
      }
      if (changed) break;
    }
    if (!changed) return p;
    if (p.size()>20000) return p;
  }
  return p;
}

// ---------------------------------------------------------------- SMT-LIB output
struct Emit {
  std::map<uint32_t,int> lcmD; // per EXPR/EXPI atom: common denominator of exponents
  std::set<uint32_t> used; vector<uint32_t> order; std::set<uint32_t> invVars;
  void scanPoly(const Poly& p) {for (auto& t : p) for (auto& f : t.first) scan(f);}
  void scan(const Fac& f) {
    const Atom& A=atoms[f.atom];
    if (A.k==EXPR||A.k==EXPI) {int& d=lcmD[f.atom]; if (!d) d=1; d=d/std::__gcd(d,f.d)*f.d;}
    if (f.n<0 && A.k!=EXPI) invVars.insert(f.atom);
    if (used.insert(f.atom).second) {
      scanPoly(A.arg); for (auto& q : A.args) scanPoly(q);
      if (A.k==EXPR||A.k==EXPI) {for (auto& g : A.mono) scan(g);}
      order.push_back(f.atom);
    }
  }
  static string num(const mpq_class& q) {
    mpz_class n=q.get_num(), d=q.get_den(); bool ng=sgn(n)<0; if (ng) n=-n;
    string s = d==1 ? n.get_str()+".0" : "(/ "+n.get_str()+".0 "+d.get_str()+".0)";
    return ng ? "(- "+s+")" : s;
  }
  // products of phase factors: each distinct product w gets a pair of constants (cos, sin), tied together by the addition theorem
  typedef vector<std::pair<uint32_t,int>> W; // atom, exponent in units of 1/lcmD
  std::map<W,int> phases; std::ostringstream pdecl, passert; int opaque=0;
  static bool canon(W& w) {if (!w.empty() && w[0].second<0) {for (auto& x : w) x.second=-x.second; return true;} return false;} // true: conjugated
  int phase(W w) { // canonical, non-empty
    auto it=phases.find(w); if (it!=phases.end()) return it->second;
    long tot=0; for (auto& x : w) tot+=std::abs(x.second);
    string def;
    if (tot>1 && tot<=200) { // peel off one factor
      W f{{w[0].first,1}}, r(w); r[0].second-=1; if (r[0].second==0) r.erase(r.begin());
      bool cj=canon(r); int a=phase(f), b=phase(r); string sb = cj ? "(- ws"+std::to_string(b)+")" : "ws"+std::to_string(b);
      string A=std::to_string(a), B=std::to_string(b);
      int id=phases.size(); phases[w]=id; string N=std::to_string(id);
      pdecl<<"(declare-const wc"<<N<<" Real)\n(declare-const ws"<<N<<" Real)\n";
      passert<<"(assert (= wc"<<N<<" (- (* wc"<<A<<" wc"<<B<<") (* ws"<<A<<" "<<sb<<"))))\n(assert (= ws"<<N<<" (+ (* wc"<<A<<" "<<sb<<") (* ws"<<A<<" wc"<<B<<"))))\n";
      return id;
    }
    int id=phases.size(); phases[w]=id; string N=std::to_string(id);
    pdecl<<"(declare-const wc"<<N<<" Real)\n(declare-const ws"<<N<<" Real)\n";
    passert<<"(assert (= (+ (* wc"<<N<<" wc"<<N<<") (* ws"<<N<<" ws"<<N<<")) 1.0))\n";
    return id;
  }
  std::map<string,string> bigPow;
  string poly(const Poly& p) { // the real part of the sum of the terms
    vector<string> terms;
    for (auto& t : p) {
      vector<string> fac; W w;
      for (auto& f : t.first) {
        const Atom& A=atoms[f.atom];
        if (A.k==EXPI) {int D=lcmD[f.atom]; w.push_back({f.atom,f.n*(D/f.d)});}
        else {
          int n=f.n, D=1; if (A.k==EXPR) {D=lcmD[f.atom]; n=f.n*(D/f.d);}
          string b = name(f.atom); if (n<0) {b="i_"+b; n=-n;}
          if (n>64) {
            string key=b+"^"+std::to_string(n); auto& v=bigPow[key];
            if (v.empty()) {v="bp"+std::to_string(bigPow.size()); pdecl<<"(declare-const "<<v<<" Real)\n"; if (A.k==EXPR) passert<<"(assert (> "<<v<<" 0.0))\n";}
            fac.push_back(v);
          }
          else for (int i=0;i<n;i++) fac.push_back(b);
        }
      }
      auto emit=[&](const mpq_class& c, const string& ph) {
        if (!sgn(c)) return;
        vector<string> ff(fac); if (!ph.empty()) ff.push_back(ph);
        if (ff.empty()) {terms.push_back(num(c)); return;}
        string x="(*"; if (c!=1) x+=" "+num(c); for (auto& y : ff) x+=" "+y; x+=")";
        if (c==1 && ff.size()==1) x=ff[0];
        terms.push_back(x);
      };
      if (w.empty()) emit(t.second.re,"");
      else {
        bool cj=canon(w); int id=phase(w);
        emit(t.second.re,"wc"+std::to_string(id));
        mpq_class c=-t.second.im; if (cj) c=-c; // Re((a+ib)(c+is)) = a c - b s
        emit(c,"ws"+std::to_string(id));
      }
    }
    if (terms.empty()) return "0.0";
    if (terms.size()==1) return terms[0];
    string r="(+"; for (auto& t : terms) r+=" "+t; return r+")";
  }
  static string name(uint32_t a) {const Atom& A=atoms[a]; if (A.k==VAR) return "|"+A.name+"|"; return "a"+std::to_string(a);}
  string decls() {
    std::ostringstream o, q;
    for (uint32_t a : order) {
      const Atom& A=atoms[a]; string n=name(a);
      if (A.k==EXPI) continue;
      o<<"(declare-const "<<n<<" Real)\n";
      if (A.k==VAR) {if (A.pos) q<<"(assert (> "<<n<<" 0.0))\n"; else if (A.nonneg) q<<"(assert (>= "<<n<<" 0.0))\n";}
      if (A.k==SQRT) q<<"(assert (and (>= "<<n<<" 0.0) (= (* "<<n<<" "<<n<<") "<<poly(A.arg)<<")))\n";
      if (A.k==INV) {if (weakInv) q<<"(assert (=> (not (= "<<poly(A.arg)<<" 0.0)) (= (* "<<n<<" "<<poly(A.arg)<<") 1.0)))\n"; else q<<"(assert (= (* "<<n<<" "<<poly(A.arg)<<") 1.0))\n";}
      if (A.k==EXPR) {
        Poly m; m[A.mono]=Q{1,0}; string ms=poly(m);
        q<<"(assert (> "<<n<<" 0.0))\n";
        q<<"(assert (=> (> "<<ms<<" 0.0) (> "<<n<<" 1.0)))\n(assert (=> (< "<<ms<<" 0.0) (< "<<n<<" 1.0)))\n(assert (=> (= "<<ms<<" 0.0) (= "<<n<<" 1.0)))\n";
      }
      if (A.k==UF && A.name=="exp") q<<"(assert (> "<<n<<" 0.0))\n";
      if (A.k==UF && A.name=="pi") q<<"(assert (and (> "<<n<<" 3.14159) (< "<<n<<" 3.1416)))\n";
    }
    for (uint32_t a : invVars) if (used.count(a)) {
      string n=name(a); string in = "i_"+n;
      o<<"(declare-const "<<in<<" Real)\n";
      if (weakInv) q<<"(assert (=> (not (= "<<n<<" 0.0)) (= (* "<<n<<" "<<in<<") 1.0)))\n"; else q<<"(assert (= (* "<<n<<" "<<in<<") 1.0))\n";
    }
    return o.str()+pdecl.str()+q.str()+passert.str();
  }
  bool weakInv=false;
};
// names such as i_|x| are not valid symbols: VAR names are restricted to [A-Za-z0-9_] and printed bare
string smtFix(string s) {string r; for (char c : s) if (c!='|') r+=c; return r;}

string opStr(Op op, const string& a, const string& b) {
  switch (op) {case EQ: return "(= "+a+" "+b+")"; case NE: return "(not (= "+a+" "+b+"))"; case LT: return "(< "+a+" "+b+")"; default: return "(<= "+a+" "+b+")";}
}
Op negOp(Op o, bool& swap) {swap=false; switch (o) {case EQ: return NE; case NE: return EQ; case LT: swap=true; return LE; default: swap=true; return LT;}}

double now() {timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec;}

enum Res {SAT,UNSAT,UNKNOWN};
Res runSolver(const string& smt, std::map<string,double>* model, int to, const string& solv) {
  string base=tmpDir+"/q"+std::to_string(getpid())+"_"+std::to_string(qcount++); string f=base+".smt2";
  {std::ofstream o(f); o<<smt;}
  string cmd;
  if (solv.find("cvc5")!=string::npos) cmd=solv+" --tlimit="+std::to_string(to*1000)+" --produce-models "+f+" 2>&1";
  else cmd="timeout "+std::to_string(to+5)+" "+solv+" -T:"+std::to_string(to)+" -memory:6000 "+f+" 2>&1";
  double t0=now();
  FILE* p=popen(cmd.c_str(),"r"); string out; char buf[4096]; size_t k; while ((k=fread(buf,1,sizeof buf,p))>0) out.append(buf,k); pclose(p);
  solverTime+=now()-t0; ++nQueries;
  if (!getenv("SR_KEEP")) unlink(f.c_str());
  Res r=UNKNOWN;
  if (out.rfind("unsat",0)==0) r=UNSAT; else if (out.rfind("sat",0)==0) r=SAT;
  if (r!=SAT && r!=UNSAT && out.find("(error")!=string::npos) {std::cerr<<"SOLVER-ERROR "<<out.substr(0,300)<<"\n";}
  if (r==UNSAT) {size_t e=out.find("(error"); if (e!=string::npos && out.find("model is not available")==string::npos && out.find("cannot get value")==string::npos && out.find("Cannot get")==string::npos) r=UNKNOWN;}
  if (r==SAT) ++nSatQ; else if (r==UNSAT) ++nUnsat; else ++nUnknown;
  if (model && r==SAT) { // ((x 1.5) (y (- 2.0)) (z (/ 1.0 3.0)) (w 1.414?))
    std::function<double(size_t&)> val=[&](size_t& i)->double {
      while (i<out.size() && isspace(out[i])) ++i;
      if (out[i]=='(') {
        ++i; while (isspace(out[i])) ++i; string op; while (i<out.size() && !isspace(out[i]) && out[i]!=')') op+=out[i++];
        vector<double> a; while (true) {while (i<out.size() && isspace(out[i])) ++i; if (i>=out.size()) return NAN; if (out[i]==')') {++i; break;} a.push_back(val(i));}
        if (op=="-") return a.size()==1 ? -a[0] : a[0]-a[1]; if (op=="/") return a[0]/a[1]; if (op=="+") return a[0]+a[1]; if (op=="*") return a[0]*a[1]; return NAN;
      }
      string t; while (i<out.size() && !isspace(out[i]) && out[i]!=')') t+=out[i++];
      if (!t.empty() && t.back()=='?') t.pop_back();
      try {return std::stod(t);} catch (...) {return NAN;}
    };
    size_t i=out.find('\n'); while (i<out.size() && out[i]!='(') ++i; ++i;
    while (i<out.size()) {
      while (i<out.size() && isspace(out[i])) ++i; if (i>=out.size()||out[i]!='(') break; ++i;
      string n; while (i<out.size() && !isspace(out[i])) n+=out[i++];
      (*model)[n]=val(i); while (i<out.size() && out[i]!=')') ++i; ++i;
    }
  }
  return r;
}

string buildQuery(const vector<Constraint>& cs, const vector<const Assertion*>& negated, bool wantModel, const vector<Constraint>& extra={}, bool weakInv=false) {
  Emit e; e.weakInv=weakInv;
  for (auto& c : cs) e.scanPoly(c.p);
  for (auto& c : extra) e.scanPoly(c.p);
  for (auto* a : negated) {e.scanPoly(a->a); e.scanPoly(a->b);}
  std::ostringstream o, b;
  for (auto& c : cs) b<<"(assert "<<opStr(c.op,e.poly(c.p),"0.0")<<")\n";
  for (auto& c : extra) b<<"(assert "<<opStr(c.op,e.poly(c.p),"0.0")<<")\n";
  if (!negated.empty()) {
    b<<"(assert (or false";
    for (auto* a : negated) {bool sw; Op n=negOp(a->op,sw); string x=e.poly(a->a), y=e.poly(a->b); b<<"\n "<<(sw ? opStr(n,y,x) : opStr(n,x,y));}
    b<<"))\n";
  }
  o<<"(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n";
  o<<e.decls()<<b.str();
  o<<"(check-sat)\n";
  if (wantModel) {
    string s; for (uint32_t a : e.order) if (atoms[a].k==VAR) s+=" "+atoms[a].name;
    if (!s.empty()) o<<"(get-value ("<<s<<"))\n";
  }
  return smtFix(o.str());
}
string forCvc5(const string& q) {
  string r="(set-logic ALL)\n"; std::istringstream i(q); string l; while (std::getline(i,l)) if (l.rfind("(set-option :pp",0)!=0 && l.rfind("(get-value",0)!=0) r+=l+"\n"; return r;
}

// ---------------------------------------------------------------- witnesses
struct Rng {uint64_t s; uint64_t next() {s^=s<<13; s^=s>>7; s^=s<<17; return s;} double u() {return (next()>>11)*(1./9007199254740992.);}};
bool holds(Op op, LD v, LD mag, bool strictGap) {
  LD eps=1e-12L*(1+mag);
  switch (op) {case EQ: return std::fabs(v)<=1e-9L*(1+mag); case NE: return std::fabs(v)>(strictGap?1e-6L*(1+mag):eps); case LT: return v<-(strictGap?1e-9L*(1+mag):0); default: return v<=eps;}
}
bool pcHolds(Point& pt) {for (auto& c : pc) {LD m; CLD v=evalPoly(c.p,pt,&m); if (!(std::isfinite(v.real())) || !holds(c.op,v.real(),m,false)) return false;} return true;}
// solve equalities of the path condition that are linear in one variable
bool solveEqs(Point& pt) {
  std::set<uint32_t> solved;
  for (int round=0; round<4; ++round) for (auto& c : pc) if (c.op==EQ) {
    pt.cache.clear();
    LD m; CLD v=evalPoly(c.p,pt,&m); if (std::fabs(v.real())<=1e-12L*(1+m)) continue;
    std::set<uint32_t> vs,seen; collectVars(c.p,vs,seen);
    for (auto it=vs.rbegin(); it!=vs.rend(); ++it) {
      uint32_t x=*it;
      LD x0=pt.v[x];
      auto f=[&](LD y){pt.v[x]=y; pt.cache.clear(); return evalPoly(c.p,pt).real();};
      LD y0=f(x0), y1=f(x0+1), y2=f(x0+2);
      LD d=y1-y0; if (std::fabs(d)<1e-9L || std::fabs((y2-y1)-d)>1e-9L*(1+std::fabs(d))) {pt.v[x]=x0; continue;}
      LD xn=x0-y0/d; if ((atoms[x].pos&&xn<=0)||(atoms[x].nonneg&&xn<0)) {pt.v[x]=x0; continue;}
      pt.v[x]=xn; pt.cache.clear(); break;
    }
  }
  pt.cache.clear();
  return true;
}
bool findPoint(Point& pt, const std::function<bool(Point&)>& extra, int tries, uint64_t seed) {
  Rng r{seed*0x9E3779B97F4A7C15ull+88172645463325252ull}; for (int i=0;i<8;i++) r.next();
  std::set<uint32_t> vars; for (uint32_t v : varOrder) vars.insert(v);
  for (int t=0; t<tries; ++t) {
    Point p; double sc = (t%4==0)?1:(t%4==1)?2:(t%4==2)?.25:6;
    for (uint32_t v : vars) {double x; if (atoms[v].pos||atoms[v].nonneg) x=.05+r.u()*sc; else x=(2*r.u()-1)*sc; if (r.u()<.1) x=std::round(x*4)/4+(atoms[v].pos?.25:0); p.v[v]=x;}
    solveEqs(p);
    if (pcHolds(p) && extra(p)) {pt=p; return true;}
  }
  return false;
}
string pointJson(Point& pt) {
  std::ostringstream o; o.precision(17); o<<"{"; bool first=true;
  for (uint32_t v : varOrder) {if (!first) o<<","; first=false; o<<jstr(atoms[v].name)<<":"<<(double)pt.v[v];}
  o<<"}"; return o.str();
}

// ---------------------------------------------------------------- branching
// Numeric points satisfying the path condition: a point on a side of a comparison shows that this side is feasible, without asking the solver.
// (Only the exploration relies on them: what is not shown feasible this way is put to the solver, and assertions always are.)
vector<Point> pool; size_t poolPc=0, poolVars=0; Rng poolRng{0x2545F4914F6CDD1Dull};
double poolValue(uint32_t v) {
  static const double scs[]={1,2,.25,6}; double sc=scs[poolRng.next()%4], x;
  if (atoms[v].pos||atoms[v].nonneg) x=.02+poolRng.u()*sc; else x=(2*poolRng.u()-1)*sc;
  return x;
}
void poolRefresh() {
  if (poolVars!=varOrder.size()) {for (auto& q : pool) for (size_t i=poolVars;i<varOrder.size();++i) q.v[varOrder[i]]=poolValue(varOrder[i]); poolVars=varOrder.size();}
  if (poolPc<pc.size()) {
    vector<Point> keep;
    for (auto& q : pool) {bool ok=true; for (size_t i=poolPc;i<pc.size()&&ok;++i) {LD m; CLD v=evalPoly(pc[i].p,q,&m); if (!std::isfinite(v.real()) || !holds(pc[i].op,v.real(),m,pc[i].op!=EQ)) ok=false;} if (ok) keep.push_back(q);}
    pool.swap(keep); poolPc=pc.size();
  }
}
bool poolAdmit(Point& q) {solveEqs(q); for (auto& c : pc) {LD m; CLD v=evalPoly(c.p,q,&m); if (!std::isfinite(v.real()) || !holds(c.op,v.real(),m,c.op!=EQ)) return false;} return true;}
// bit 0: p<0 is possible, bit 1: p>0 is possible, as shown by points
int sides(const Poly& p, int want, double limit) {
  poolRefresh(); int found=0;
  auto look=[&](Point& q) {LD m; LD v=evalPoly(p,q,&m).real(); if (std::isfinite(v)) {if (v<-1e-8L*(1+m)) found|=1; if (v>1e-8L*(1+m)) found|=2;}};
  for (auto& q : pool) {look(q); if ((found&want)==want) return found;}
  double t0=now();
  while (now()-t0<limit && ((found&want)!=want || pool.size()<6)) {
    Point q;
    if (pool.empty() || poolRng.next()%3==0) for (uint32_t v : varOrder) q.v[v]=poolValue(v);
    else {q=pool[poolRng.next()%pool.size()]; q.cache.clear(); double rate=(poolRng.next()%2) ? .1 : .5; for (uint32_t v : varOrder) if (poolRng.u()<rate) {if (poolRng.next()%2) q.v[v]=poolValue(v); else q.v[v]*=std::exp(3*(2*poolRng.u()-1));}}
    if (!poolAdmit(q)) continue;
    int before=found; look(q);
    if (pool.size()<24 || found!=before) pool.push_back(q);
  }
  if (pool.size()>40) pool.erase(pool.begin(),pool.begin()+(pool.size()-40));
  return found;
}
Res feasible(const Constraint& c, int to) {
  vector<Constraint> cs(pc); cs.push_back(c);
  return runSolver(buildQuery(cs,{},false),nullptr,std::min(timeoutS,to),solver);
}
string condKey(Op op, const Poly& p) {return std::to_string((int)op)+":"+str(p);}

// sound quick sign analysis: all monomials of known sign
int quickSign(const Poly& p) { // +1: >0, +2: >=0, -1: <0, -2: <=0, 0 unknown
  if (p.empty()) return 0;
  bool allPos=true, allNeg=true, strict=false;
  for (auto& t : p) {
    if (sgn(t.second.im)) return 0;
    bool st=true;
    for (auto& f : t.first) {
      const Atom& A=atoms[f.atom];
      bool even=(f.d==1 && f.n%2==0);
      if (A.k==EXPR || A.pos || (A.k==SQRT&&A.isConst)) continue;
      if (A.k==VAR && (A.nonneg||even)) {if (f.n>0) st=false; continue;} // x^{-n}: nonzero by assumption of division
      if (A.k==SQRT) {st=false; continue;}
      return 0;
    }
    if (sgn(t.second.re)>0) allNeg=false; else allPos=false;
    if (st) strict=true;
  }
  if (allPos) return strict ? 1 : 2;
  if (allNeg) return strict ? -1 : -2;
  return 0;
}

void pathLimit() {
  if (__sync_add_and_fetch(&shared->paths,1)>maxPaths) fatal("path bound exceeded ("+std::to_string(maxPaths)+")");
}
// files of the run (directory srfs of the working directory) belong to the path: the parent gets back what it had before the child ran
struct Files {
  std::map<string,string> content; std::vector<std::pair<int,off_t>> pos; bool any=false;
  static string slurp(const string& f) {std::ifstream i(f,std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str();}
  Files() {
    std::error_code e; if (!std::filesystem::is_directory("srfs",e)) return; any=true;
    for (auto& d : std::filesystem::recursive_directory_iterator("srfs",e)) if (d.is_regular_file(e)) content[d.path().string()]=slurp(d.path().string());
    string here=std::filesystem::canonical("srfs",e).string()+"/";
    for (int fd=3;fd<256;++fd) {char b[4096]; ssize_t n=readlink(("/proc/self/fd/"+std::to_string(fd)).c_str(),b,sizeof b); if (n>0 && string(b,n).rfind(here,0)==0) pos.push_back({fd,lseek(fd,0,SEEK_CUR)});}
  }
  void restore() const {
    std::error_code e; if (!any) {std::filesystem::remove_all("srfs",e); return;} std::filesystem::create_directories("srfs",e); std::vector<string> gone;
    for (auto& d : std::filesystem::recursive_directory_iterator("srfs",e)) if (d.is_regular_file(e) && !content.count(d.path().string())) gone.push_back(d.path().string());
    for (auto& g : gone) unlink(g.c_str());
    for (auto& c : content) if (slurp(c.first)!=c.second) {std::ofstream o(c.first,std::ios::binary|std::ios::trunc); o<<c.second;}
    for (auto& q : pos) lseek(q.first,q.second,SEEK_SET);
  }
};
extern "C" char __executable_start;
// fork: returns true in the child branch (explored first), false in the parent afterwards
bool branchFork() {
  ++nForks; pathLimit();
  if (getenv("SR_FORKLOG")) {void* b[24]; int n=backtrace(b,24); std::cerr<<"FORK"; for (int i=1;i<n;++i) std::cerr<<" "<<(void*)((char*)b[i]-(size_t)&__executable_start); std::cerr<<"\n";} // for debugging: addr2line -Cife sym ...
  fflush(nullptr); std::cout.flush(); Files files;
  pid_t pid=fork();
  if (pid<0) fatal("fork failed");
  if (pid==0) { // counters of the parent are reported by the parent
    nAsserts=nAsserts; nQueries=nUnsat=nSatQ=nUnknown=nForks=nTrivial=nRounded=nFcmp=0; solverTime=0; entered.clear();
    return true;
  }
  int st; while (waitpid(pid,&st,0)<0 && errno==EINTR);
  files.restore();
  if (WIFSIGNALED(st)) {
    string m="{\"type\":\"crash\",\"scenario\":"+jstr(scenarioName)+",\"signal\":"+std::to_string(WTERMSIG(st))+",\"choices\":"+choicesJson()+"}";
    writeRecord(m);
  }
  return false;
}
void finishPath();

// ---------------------------------------------------------------- equalities of the path condition used as substitutions
struct Subst {uint32_t x; Poly by;};
vector<Subst> substs; size_t substDone=0; bool noFork=false; struct NoFork {};
Poly substPoly(const Poly& p, const Subst& s, std::map<uint32_t,Poly>& cache, std::map<uint32_t,bool>& touches);
bool touchesAtom(uint32_t a, uint32_t x, std::map<uint32_t,bool>& c) {
  if (a==x) return true; auto it=c.find(a); if (it!=c.end()) return it->second;
  std::set<uint32_t> v,seen; collectVarsAtom(a,v,seen); return c[a]=v.count(x);
}
Poly substAtom(uint32_t a, const Subst& s, std::map<uint32_t,Poly>& cache, std::map<uint32_t,bool>& touches) {
  if (a==s.x) return s.by;
  if (!touchesAtom(a,s.x,touches)) return atomPoly(a);
  auto it=cache.find(a); if (it!=cache.end()) return it->second;
  Atom A=atoms[a]; Poly r;
  switch (A.k) {
    case SQRT: r=sqrtPoly(substPoly(A.arg,s,cache,touches)); break;
    case INV: r=inverse(substPoly(A.arg,s,cache,touches)); break;
    case EXPR: r=expPoly(substPoly(monoPoly(A.mono,Q{1,0}),s,cache,touches)); break;
    case EXPI: {Poly q=substPoly(monoPoly(A.mono,Q{1,0}),s,cache,touches); if (q.empty()) r=constant(1); else if (!expSplit(q,EXPI,r)) throw NoFork(); break;}
    case UF: {vector<Poly> args; for (auto& q : A.args) args.push_back(substPoly(q,s,cache,touches)); r=ufPoly(A.name,args); break;}
    default: r=atomPoly(a);
  }
  return cache[a]=r;
}
Poly powSigned(const Poly& b, int n, int d, bool isExp) {
  if (d!=1) { // only for exponentials, which stay products of exponentials
    if (!isExp || b.size()!=1) throw NoFork();
    Poly r; Mono m; for (auto f : b.begin()->first) {int64_t nn=(int64_t)f.n*n, dd=(int64_t)f.d*d; int64_t g=std::__gcd(nn<0?-nn:nn,dd); m.push_back(Fac{f.atom,(int32_t)(nn/g),(int32_t)(dd/g)});}
    if (!(b.begin()->second==Q{1,0})) throw NoFork();
    r[m]=Q{1,0}; return r;
  }
  Poly r=power(b,std::abs(n)); return n<0 ? inverse(r) : r;
}
Poly substPoly(const Poly& p, const Subst& s, std::map<uint32_t,Poly>& cache, std::map<uint32_t,bool>& touches) {
  Poly r;
  for (auto& t : p) {
    bool any=false; for (auto& f : t.first) if (touchesAtom(f.atom,s.x,touches)) {any=true; break;}
    if (!any) {addTo(r,t.first,t.second); continue;}
    Poly q=constant(1); q=scale(q,t.second);
    for (auto& f : t.first) {
      if (!touchesAtom(f.atom,s.x,touches)) {Mono m{f}; q=mul(q,monoPoly(m,Q{1,0})); continue;}
      Kind k=atoms[f.atom].k; Poly b=substAtom(f.atom,s,cache,touches);
      if (b.empty() && f.n<0) throw NoFork();
      q=mul(q,powSigned(b,f.n,f.d,k==EXPR||k==EXPI));
    }
    for (auto& u : q) addTo(r,u.first,u.second);
  }
  return r;
}
Poly substAll(const Poly& p) {
  if (substs.empty()) return p;
  bool old=noFork; noFork=true; Poly r=p;
  try {for (auto& s : substs) {std::map<uint32_t,Poly> c; std::map<uint32_t,bool> t; r=substPoly(r,s,c,t);}}
  catch (NoFork&) {noFork=old; if (getenv("SR_DEBUG")) std::cerr<<"SUBSTFAIL "<<substs.size()<<"\n"; return p;}
  noFork=old; return r;
}
void newEquality(Poly p) { if (getenv("SR_DEBUG")) std::cerr<<"EQ "<<str(p)<<"\n"; // p==0 holds on this path: solve for a variable that occurs linearly
  p=substAll(p);
  for (auto it=p.rbegin(); it!=p.rend(); ++it) {
    if (it->first.size()!=1) continue;
    Fac f=it->first[0]; if (f.n!=1||f.d!=1||atoms[f.atom].k!=VAR||sgn(it->second.im)) continue;
    if (atoms[f.atom].pos||atoms[f.atom].nonneg) continue;
    Poly rest=p; rest.erase(it->first);
    std::set<uint32_t> v,seen; collectVars(rest,v,seen); if (v.count(f.atom)) continue;
    Poly by=scale(rest,-inv(it->second));
    if (getenv("SR_DEBUG")) std::cerr<<"SUBST "<<atoms[f.atom].name<<" := "<<str(by)<<"\n";
    substs.push_back({f.atom,by}); return;
  }
}

bool noPool=getenv("SR_NOPOOL")!=nullptr, debugDecide=getenv("SR_DEBUG")!=nullptr;
bool decide(Op op, const Poly& p0, const char* why) { // truth of (p op 0) on this path, forking if both are possible
  Poly p=substAll(p0); ++nFcmp;
  if (op==NE) return !decide(EQ,p0,why);
  for (auto& t : p) for (auto& f : t.first) if (atoms[f.atom].k==INV) {p=reduceInv(p); goto red;}
red:
  if (p.empty()) return op==EQ||op==LE;
  mpq_class q; if (isRealConst(p,q)) {int s=sgn(q); return op==EQ ? s==0 : op==LT ? s<0 : s<=0;}
  if (varFree(p)) {
    Point pt; LD m; CLD v=evalPoly(p,pt,&m);
    if (std::fabs(v.real())<=1e-14L*m) {return op==EQ||op==LE;} // equal real constants
    return op==EQ ? false : op==LT ? v.real()<0 : v.real()<=0;
  }
  // normalise scale
  {mpq_class c=content(p); p=scale(p,inv(Q{c,0}));}
  if (p.size()==2) { // comparison of two square roots, or of one with a constant: that of the squares
    Poly d; bool ok=true, pos=false, ng=false;
    for (auto& t : p) {
      if (sgn(t.second.im)) {ok=false; break;}
      Poly sq; if (t.first.empty()) sq=constant(1); else if (t.first.size()==1 && t.first[0].n==1 && t.first[0].d==1 && atoms[t.first[0].atom].k==SQRT && !hasComplex(atoms[t.first[0].atom].arg)) sq=atoms[t.first[0].atom].arg; else {ok=false; break;}
      (sgn(t.second.re)>0 ? pos : ng)=true; mpq_class c2=t.second.re*t.second.re; if (sgn(t.second.re)<0) c2=-c2; d=add(d,scale(sq,Q{c2,0}));
    }
    if (ok && pos && ng && !varFree(p)) return decide(op,d,why);
  }
  int qs=quickSign(p);
  if (qs==1) return false; // >0: EQ false, LT false, LE false
  if (qs==-1) return op!=EQ;
  if (qs==2 && op==LT) return false;
  if (qs==-2 && op==LE) return true;
  string k=condKey(op,p); auto it=decided.find(k); if (it!=decided.end()) return it->second;
  Constraint yes{op,p}, no; double dt0=now();
  {bool sw; Op n=negOp(op,sw); no.op=n; no.p = sw ? neg(p) : p;}
  // a side is feasible if a point is known on it; else the solver is asked, briefly; else more points are tried, and the solver once more
  int sd = noPool ? 0 : sides(p,op==EQ ? 1 : 3,pool.size()<6 ? .03 : 0);
  auto side=[&](const Constraint& c, int mask)->Res {
    if (sd&mask) return SAT;
    Res r=feasible(c,noPool ? feasTimeoutS : 1); if (r!=UNKNOWN || noPool) return r;
    if (mask) {sd|=sides(p,mask,.6); if (sd&mask) return SAT;}
    return feasible(c,feasTimeoutS);
  };
  Res ry=side(yes,op==EQ ? 0 : 1);
  auto take=[&](bool b) {decided[k]=b; const Constraint& c = b ? yes : no; pc.push_back(c); if (c.op==EQ) newEquality(c.p); return b;};
  if (ry==UNSAT) return take(false);
  Res rn=side(no,op==EQ ? 3 : 2);
  if (rn==UNSAT) return take(true);
  if (debugDecide) std::cerr<<"DECIDE "<<now()-dt0<<" s, points "<<sd<<" solver "<<ry<<rn<<" pc "<<pc.size()<<" pool "<<pool.size()<<": "<<pretty(p).substr(0,200)<<"\n";
  if (noFork) throw NoFork();
  bool b=branchFork();
  // child takes "yes"
  return take(b);
}

// ---------------------------------------------------------------- end of a path
bool roundedEqual(const Poly& d, const Poly& a, const Poly& b) {
  // differences that stem only from decimal rounding of constants: every coefficient (constant atoms evaluated) below 1e-9 of the scale
  auto group=[&](const Poly& p){
    std::map<Mono,CLD> g; Point pt;
    for (auto& t : p) {Mono rest; CLD c(ldOf(t.second.re),ldOf(t.second.im)); for (auto& f : t.first) {Poly one; one[Mono{f}]=Q{1,0}; if (varFree(one)) c*=evalPoly(one,pt); else rest.push_back(f);} g[rest]+=c;}
    return g;
  };
  LD sc=0; for (auto& x : group(a)) sc=std::max(sc,std::abs(x.second)); for (auto& x : group(b)) sc=std::max(sc,std::abs(x.second));
  for (auto& x : group(d)) if (std::abs(x.second)>1e-10L*(sc+1e-30L)) return false;
  return true;
}

void report(const string& kind, const string& label, const string& detail, const string& point, const string& src) {
  writeRecord("{\"type\":\"candidate\",\"kind\":"+jstr(kind)+",\"scenario\":"+jstr(scenarioName)+",\"label\":"+jstr(label)+",\"detail\":"+jstr(detail)+",\"choices\":"+choicesJson()+",\"point\":"+point+",\"source\":"+jstr(src)+"}");
}
uint64_t seedEnv() {const char* s=getenv("VERIF_SEED"); return s ? strtoull(s,0,10)+1 : 2;}

bool modelPoint(const vector<const Assertion*>& negated, Point& pt, const vector<Constraint>& extra, int to) {
  std::map<string,double> m;
  if (runSolver(buildQuery(pc,negated,true,extra),&m,to,solver)!=SAT) return false;
  Rng r{12345}; for (int i=0;i<5;i++) r.next();
  for (uint32_t v : varOrder) {auto it=m.find(atoms[v].name); pt.v[v] = (it!=m.end() && std::isfinite(it->second)) ? it->second : .5+r.u();}
  return true;
}

void finishPath() {
  // 1. is the path real?
  string reach="trivial"; Point wit; bool haveWit=false;
  haveWit=findPoint(wit,[](Point&){return true;},300,seedEnv());
  if (!pc.empty()) {
    if (!haveWit && !noPool) {poolRefresh(); if (!pool.empty()) {wit=pool[0]; wit.cache.clear(); haveWit=pcHolds(wit);}}
    Res r=haveWit ? SAT : runSolver(buildQuery(pc,{},false),nullptr,timeoutS,solver);
    if (r==UNSAT && runSolver(buildQuery(pc,{},false,{},true),nullptr,timeoutS,solver)==SAT) {
      Point pt; std::map<string,double> m; runSolver(buildQuery(pc,{},true,{},true),&m,timeoutS,solver);
      for (uint32_t v : varOrder) {auto it=m.find(atoms[v].name); pt.v[v] = (it!=m.end() && std::isfinite(it->second)) ? it->second : .5;}
      report("division","division by zero on this path","a denominator vanishes",pointJson(pt),"solver model");
      return;
    }
    if (r==UNSAT) {writeRecord("{\"type\":\"infeasible\",\"scenario\":"+jstr(scenarioName)+"}"); return;}
    reach = haveWit ? "witness" : r==SAT ? "sat" : "unknown";
  }
  // 2. concrete facts that failed on this path
  for (auto& b : boolFails) {
    Point pt; string src="solver"; bool ok = pc.empty() ? findPoint(pt,[](Point&){return true;},300,seedEnv()) : modelPoint({},pt,{},timeoutS);
    if (!ok) {ok=haveWit; pt=wit; src="search";}
    report("check",b.label,"does not hold on this path",ok ? pointJson(pt) : "null",src);
  }
  // 3. assertions
  vector<const Assertion*> todo; long trivial=0;
  if (!substs.empty()) for (auto& a : pending) {a.a=substAll(a.a); a.b=substAll(a.b);}
  for (auto& a : pending) {maxTerms=std::max<long>(maxTerms,a.a.size()+a.b.size()); todo.push_back(&a);}
  size_t chunk=60; vector<const Assertion*> bad;
  vector<const Assertion*> easy, hard;
  for (auto* a : todo) {Poly d=sub(a->a,a->b); if (a->op==EQ && d.empty()) easy.push_back(a); else hard.push_back(a);}
  trivial=easy.size();
  vector<Constraint> none;
  auto discharge=[&](const vector<const Assertion*>& v, bool light) {
    for (size_t i=0; i<v.size(); i+=chunk) {
      vector<const Assertion*> c(v.begin()+i,v.begin()+std::min(v.size(),i+chunk));
      string q=buildQuery(light ? none : pc,c,false);
      Res r=runSolver(q,nullptr,light ? timeoutS : std::min(timeoutS,c.size()>1?10:timeoutS),solver);
      if (r==UNSAT && !solver2.empty()) {Res r2=runSolver(forCvc5(q),nullptr,timeoutS,solver2); if (r2==SAT) fatal("solvers disagree");}
      if (r==UNSAT) continue;
      for (auto* a : c) bad.push_back(a);
    }
  };
  discharge(easy,true); // identical normal forms: the path condition is not needed
  discharge(hard,false);
  long unsatAsserts=todo.size()-bad.size();
  for (auto* a : bad) {
    vector<const Assertion*> one{a};
    Res r = (bad.size()==1 && hard.size()==1) ? UNKNOWN : runSolver(buildQuery(pc,one,false),nullptr,timeoutS,solver);
    if (r==UNSAT) {++unsatAsserts; continue;}
    Poly d=sub(a->a,a->b);
    if (a->op==EQ) {
      Assertion red{EQ,reduceInv(d),Poly(),a->label};
      if (red.a.empty()) {++nTrivial; ++unsatAsserts; continue;}
      if (roundedEqual(d,a->a,a->b)) {++nRounded; ++unsatAsserts; continue;}
      if (red.a!=d) {Res r3=runSolver(buildQuery(pc,{&red},false),nullptr,timeoutS,solver); if (r3==UNSAT) {++unsatAsserts; continue;}}
    }
    // counterexample: a numeric point with a clear gap is preferred (a model of the solver next), both are replayed on the real code
    Point pt; string src; bool ok=false;
    auto viol=[&](Point& p) {LD m; LD v=evalPoly(d,p,&m).real(); LD sc=1+std::fabs(evalPoly(a->a,p).real()); if (!std::isfinite(v)) return false; switch (a->op) {case EQ: return std::fabs(v)>1e-5L*sc; case LT: return v>=-1e-12L*sc; case LE: return v>1e-5L*sc; default: return std::fabs(v)<1e-12L;}};
    std::map<string,double> m;
    // (i) the solver's model, asked for a visible gap
    {
      vector<Constraint> extra;
      for (uint32_t v : varOrder) {Poly x=atomPoly(v); extra.push_back({LE,sub(x,constant(4))}); extra.push_back({LE,sub(constant(-4),x)});}
      Assertion gap=*a;
      if (a->op==LE||a->op==LT) gap.b=add(a->b,constant(mpq_class(1,1000)));
      bool got=modelPoint({&gap},pt,extra,std::min(timeoutS,10)) || modelPoint(one,pt,{},std::min(timeoutS,10));
      if (got) {Point p2=pt; if (pcHolds(p2) && viol(p2)) {ok=true; src="solver model";} }
      if (!ok && findPoint(pt,viol,4000,seedEnv())) {ok=true; src=string("point search after solver verdict ")+(got||r==SAT ? "sat":"unknown");}
      if (!ok && got) {ok=true; src="solver model (not confirmed numerically)";}
    }
    string det="lhs="+pretty(a->a)+"  rhs="+pretty(a->b)+"  solver="+(r==SAT?"sat":"unknown");
    report("assert",a->label,det,ok ? pointJson(pt) : "null",src);
  }
  // translator validation sample
  string sample="null";
  if (haveWit) {
    std::ostringstream o; o.precision(17); o<<"{\"point\":"<<pointJson(wit)<<",\"values\":["; bool f=true;
    for (auto& a : pending) {if (!f) o<<","; f=false; auto fin=[](LD x){return std::isfinite(x) ? (double)x : 0.;}; o<<"["<<fin(evalPoly(a.a,wit).real())<<","<<fin(evalPoly(a.b,wit).real())<<"]";}
    o<<"]}"; sample=o.str();
  }
  std::ostringstream o; o.precision(6);
  o<<"{\"type\":\"path\",\"scenario\":"<<jstr(scenarioName)<<",\"choices\":"<<choicesJson()<<",\"reach\":"<<jstr(reach)<<",\"pc\":"<<pc.size()
   <<",\"vars\":"<<varOrder.size()<<",\"asserts\":"<<todo.size()<<",\"discharged\":"<<unsatAsserts<<",\"bool_asserts\":"<<nBoolAsserts<<",\"bool_failed\":"<<boolFails.size()
   <<",\"identical_normal_form\":"<<trivial<<",\"rounded\":"<<nRounded<<",\"queries\":"<<nQueries<<",\"unsat\":"<<nUnsat<<",\"sat\":"<<nSatQ<<",\"unknown\":"<<nUnknown
   <<",\"forks\":"<<nForks<<",\"comparisons\":"<<nFcmp<<",\"solver_s\":"<<solverTime<<",\"max_terms\":"<<maxTerms<<",\"atoms\":"<<atoms.size()<<",\"sample\":"<<sample;
  string pcs; for (size_t i=0;i<pc.size()&&i<6;i++) {if (i) pcs+="; "; pcs+=pretty(pc[i].p)+(pc[i].op==EQ?"==0":pc[i].op==NE?"!=0":pc[i].op==LT?"<0":"<=0");}
  o<<",\"pc_text\":"<<jstr(pcs)<<",\"functions\":["; bool f=true; for (auto& e : entered) {if (!f) o<<","; f=false; o<<jstr(e);} o<<"]";
  string ns; for (auto& n : notes) {if (!ns.empty()) ns+=","; ns+=jstr(n);}
  o<<",\"notes\":["<<ns<<"]}";
  writeRecord(o.str());
}

double un(double a, const char* n, double nat, const std::function<Poly(const Poly&)>& f, bool exact) {
  if (!boxed(a) && (!std::isfinite(a) || exact)) return nat;
  Poly t; const Poly p=polyOf(a,t); return box(f(p));
}
double uf1(const char* n, double a, double nat) {
  if (!boxed(a) && !std::isfinite(a)) return nat;
  Poly t; Poly p=polyOf(a,t); return box(ufPoly(n,{p}));
}

} // namespace

// ======================================================================= entry points of the instrumented code
extern "C" {

double __sr_fadd(double a, double b) {
  if (!boxed(a) && !boxed(b)) {
    double s=a+b; if (!std::isfinite(s)) return s;
    volatile double bb=s-a; volatile double e1=s-bb; volatile double e=(a-e1)+(b-bb); if (e==0) return s;
    return box(add(constant(mpq_class(a)),constant(mpq_class(b))));
  }
  if (!boxed(a) && !std::isfinite(a)) return a; if (!boxed(b) && !std::isfinite(b)) return b;
  if (!boxed(a) && a==0) return b; if (!boxed(b) && b==0) return a;
  Poly t,u; return box(add(polyOf(a,t),polyOf(b,u)));
}
double __sr_fneg(double a) {if (!boxed(a)) return -a; Poly t; return box(neg(polyOf(a,t)));}
double __sr_fsub(double a, double b) {return __sr_fadd(a,__sr_fneg(b));}
double __sr_fmul(double a, double b) {
  if (!boxed(a) && !boxed(b)) {
    double s=a*b; if (!std::isfinite(s)||!std::isfinite(a)||!std::isfinite(b)) return s;
    if (a==0||b==0) return s;
    if (std::fabs(s)>1e-250 && std::fma(a,b,-s)==0) return s;
    return box(mul(constant(mpq_class(a)),constant(mpq_class(b))));
  }
  if (!boxed(a) && a==0) return 0; if (!boxed(b) && b==0) return 0; // finite reals
  if (!boxed(a) && a==1) return b; if (!boxed(b) && b==1) return a;
  if ((!boxed(a)&&std::isnan(a))||(!boxed(b)&&std::isnan(b))) return NAN;
  Poly t,u; return box(mul(polyOf(a,t),polyOf(b,u)));
}
double __sr_fdiv(double a, double b) {
  if (!boxed(a) && !boxed(b)) {
    double s=a/b; if (!std::isfinite(s)||!std::isfinite(a)||!std::isfinite(b)) return s;
    if (a==0) return s;
    if (std::fabs(s)>1e-250 && std::fma(s,b,-a)==0) return s;
    return box(scale(constant(mpq_class(a)),inv(Q{mpq_class(b),0})));
  }
  if (!boxed(b)) {
    if (b==0) fatal("symbolic value divided by concrete zero");
    if (std::isinf(b)) return 0; if (std::isnan(b)) return b;
    Poly t; return box(scale(polyOf(a,t),inv(Q{mpq_class(b),0})));
  }
  if (!boxed(a) && a==0) return 0;
  if (!boxed(a) && std::isnan(a)) return a;
  Poly t,u; Poly pa=polyOf(a,t), pb=polyOf(b,u);
  if (pa==pb) return 1;
  if (pb.size()>1 && pa.size()==pb.size()) { // constant ratio
    Q r=pa.begin()->second*inv(pb.begin()->second); if (scale(pb,r)==pa) {Poly c; c[Mono()]=r; return box(std::move(c));}
  }
  return box(mul(pa,inverse(pb)));
}
double __sr_fma(double a, double b, double c) {return __sr_fadd(__sr_fmul(a,b),c);}
int __sr_fcmp(int pred, double a, double b) {
  if (!boxed(a) && !boxed(b)) {
    bool un=std::isnan(a)||std::isnan(b);
    switch (pred) {
      case 0: return 0; case 1: return !un&&a==b; case 2: return !un&&a>b; case 3: return !un&&a>=b; case 4: return !un&&a<b; case 5: return !un&&a<=b; case 6: return !un&&a!=b; case 7: return !un;
      case 8: return un; case 9: return un||a==b; case 10: return un||a>b; case 11: return un||a>=b; case 12: return un||a<b; case 13: return un||a<=b; case 14: return un||a!=b; default: return 1;
    }
  }
  if (pred==7) return !( (!boxed(a)&&std::isnan(a)) || (!boxed(b)&&std::isnan(b)) );
  if (pred==8) return   ( (!boxed(a)&&std::isnan(a)) || (!boxed(b)&&std::isnan(b)) );
  if (pred==0) return 0; if (pred==15) return 1;
  for (int w=0; w<2; ++w) {double x = w ? b : a; if (!boxed(x) && !std::isfinite(x)) {
    if (std::isnan(x)) return pred>=8;
    // the other side is a finite real
    bool aBig = (w==0) ? x>0 : x<0; int p=pred&7;
    return p==1 ? 0 : p==6 ? 1 : (p==2||p==3) ? aBig : !aBig;
  }}
  Poly t,u; Poly d=sub(polyOf(a,t),polyOf(b,u));
  switch (pred&7) {
    case 1: return decide(EQ,d,"fcmp"); case 6: return !decide(EQ,d,"fcmp");
    case 4: return decide(LT,d,"fcmp"); case 5: return decide(LE,d,"fcmp");
    case 2: return decide(LT,neg(d),"fcmp"); default: return decide(LE,neg(d),"fcmp");
  }
}
double __sr_guard(double a, const char* what) {
  if (boxed(a)) {Poly t; mpq_class q; if (isRealConst(polyOf(a,t),q)) return q.get_d(); if (varFree(polyOf(a,t))) {Point pt; return (double)evalPoly(polyOf(a,t),pt).real();} fatal(string("symbolic value reaches uninstrumented code: ")+what);}
  return a;
}
int64_t __sr_fptosi(double a) {
  if (boxed(a)) {Poly t; const Poly& p=polyOf(a,t); if (varFree(p)) {Point pt; return (int64_t)(double)evalPoly(p,pt).real();} fatal("conversion of a symbolic real to an integer");}
  return (int64_t)a;
}
uint64_t __sr_fptoui(double a) {if (boxed(a)) return (uint64_t)__sr_fptosi(a); return (uint64_t)a;}
int __sr_fpclass(double a, int mask) {
  if (boxed(a)) return (mask & (0x108|0x0F0|0x108)) && (mask&0x1F8)==0x1F8 ? 1 : (mask&0x3)&&!(mask&~0x3) ? 0 : (mask&0x204)&&!(mask&~0x204) ? 0 : (mask&0x1F8) ? 1 : 0;
  bool r=false; int c=std::fpclassify(a); bool ng=std::signbit(a);
  if ((mask&3)&&c==FP_NAN) r=true; if ((mask&4)&&c==FP_INFINITE&&ng) r=true; if ((mask&0x200)&&c==FP_INFINITE&&!ng) r=true;
  if ((mask&8)&&c==FP_NORMAL&&ng) r=true; if ((mask&0x100)&&c==FP_NORMAL&&!ng) r=true; if ((mask&0x10)&&c==FP_SUBNORMAL&&ng) r=true; if ((mask&0x80)&&c==FP_SUBNORMAL&&!ng) r=true;
  if ((mask&0x20)&&c==FP_ZERO&&ng) r=true; if ((mask&0x40)&&c==FP_ZERO&&!ng) r=true;
  return r;
}
double __sr_sqrt(double a) {
  if (!boxed(a)) {if (!(a>=0)||!std::isfinite(a)) return std::sqrt(a); double s=std::sqrt(a); if (std::fma(s,s,-a)==0) return s; return box(sqrtPoly(constant(mpq_class(a))));}
  Poly t; Poly p=polyOf(a,t);
  return box(sqrtPoly(p));
}
double __sr_exp(double a) {if (!boxed(a)&&(!std::isfinite(a)||a==0)) return std::exp(a); Poly t; Poly p=polyOf(a,t); return box(expPoly(p));}
double __sr_sin(double a) {if (!boxed(a)&&(!std::isfinite(a)||a==0)) return std::sin(a); Poly t,s; Poly p=polyOf(a,t); sincosPoly(p,&s,nullptr); return box(std::move(s));}
double __sr_cos(double a) {if (!boxed(a)&&(!std::isfinite(a)||a==0)) return std::cos(a); Poly t,c; Poly p=polyOf(a,t); sincosPoly(p,nullptr,&c); return box(std::move(c));}
void __sr_sincos(double a, double* s, double* c) {*s=__sr_sin(a); *c=__sr_cos(a);}
double __sr_log(double a) {
  if (!boxed(a)&&(!(a>0)||!std::isfinite(a)||a==1)) return std::log(a);
  Poly t; Poly p=polyOf(a,t);
  if (p.size()==1 && p.begin()->second==Q{1,0}) { // log of a product of exponentials
    bool all=true; Poly r; for (auto& f : p.begin()->first) {if (atoms[f.atom].k!=EXPR) all=false; else r=add(r,monoPoly(atoms[f.atom].mono,Q{mpq_class(f.n,f.d),0}));}
    if (all) return box(std::move(r));
  }
  if (decide(EQ,p,"logarithm of zero")) return -INFINITY;
  return box(ufPoly("log",{p}));
}
double __sr_fabs(double a) {if (!boxed(a)) return std::fabs(a); Poly t; Poly p=polyOf(a,t); bool ge=decide(LE,neg(p),"fabs"); return ge ? a : __sr_fneg(a);}
double __sr_copysign(double a, double b) {if (!boxed(a)&&!boxed(b)) return std::copysign(a,b); double m=__sr_fabs(a); bool ng; if (boxed(b)) {Poly t; Poly p=polyOf(b,t); ng=decide(LT,p,"copysign");} else ng=std::signbit(b); return ng ? __sr_fneg(m) : m;}
double __sr_powi(double a, int n) {if (!boxed(a)) {double r=1; for (int i=0;i<std::abs(n);i++) r=__sr_fmul(r,a); return n<0 ? __sr_fdiv(1,r) : r;} Poly t; Poly p=polyOf(a,t); Poly r=power(p,std::abs(n)); return box(n<0 ? inverse(r) : r);}
double __sr_pow(double a, double b) {
  if (!boxed(b) && b==std::floor(b) && std::fabs(b)<64) return __sr_powi(a,(int)b);
  if (!boxed(b) && 2*b==std::floor(2*b) && std::fabs(b)<32) return __sr_powi(__sr_sqrt(a),(int)(2*b));
  if (!boxed(a) && !boxed(b)) {double r=std::pow(a,b); if (!std::isfinite(r)) return r; return box(ufPoly("pow",{constant(mpq_class(a)),constant(mpq_class(b))}));}
  Poly t,u; Poly pa=polyOf(a,t), pb=polyOf(b,u); return box(ufPoly("pow",{pa,pb}));
}
double __sr_fmin(double a, double b) {if (!boxed(a)&&std::isnan(a)) return b; if (!boxed(b)&&std::isnan(b)) return a; return __sr_fcmp(4,b,a) ? b : a;}
double __sr_fmax(double a, double b) {if (!boxed(a)&&std::isnan(a)) return b; if (!boxed(b)&&std::isnan(b)) return a; return __sr_fcmp(4,a,b) ? b : a;}
double __sr_hypot(double a, double b) {if (!boxed(b)&&b==0) return __sr_fabs(a); if (!boxed(a)&&a==0) return __sr_fabs(b); return __sr_sqrt(__sr_fadd(__sr_fmul(a,a),__sr_fmul(b,b)));}
double __sr_floor(double a) {if (!boxed(a)) return std::floor(a); Poly t; if (varFree(polyOf(a,t))) {Point pt; return (double)std::floor(evalPoly(polyOf(a,t),pt).real());} fatal("floor of a symbolic real");}
double __sr_ceil(double a) {if (!boxed(a)) return std::ceil(a); Poly t; if (varFree(polyOf(a,t))) {Point pt; return (double)std::ceil(evalPoly(polyOf(a,t),pt).real());} fatal("ceil of a symbolic real");}
double __sr_round(double a) {return std::round(__sr_guard(a,"round"));}
double __sr_trunc(double a) {return std::trunc(__sr_guard(a,"trunc"));}
double __sr_rint(double a) {return std::rint(__sr_guard(a,"rint"));}
double __sr_nearbyint(double a) {return std::nearbyint(__sr_guard(a,"nearbyint"));}
double __sr_fmod(double a, double b) {return std::fmod(__sr_guard(a,"fmod"),__sr_guard(b,"fmod"));}
double __sr_fdim(double a, double b) {return __sr_fcmp(2,a,b) ? __sr_fsub(a,b) : 0.;}
#define UF1(n) double __sr_##n(double a) {if (!boxed(a) && (a==0||!std::isfinite(a))) return std::n(a); return uf1(#n,a,0);}
UF1(tan) UF1(sinh) UF1(cosh) UF1(tanh) UF1(atan) UF1(asin) UF1(acos) UF1(lgamma) UF1(tgamma) UF1(erf) UF1(log10) UF1(log2) UF1(exp2) UF1(cbrt) UF1(expm1) UF1(log1p)
double __sr_ldexp(double a, int n) {return __sr_fmul(a,std::ldexp(1.,n));}
double __sr_frexp(double a, int* e) {return std::frexp(__sr_guard(a,"frexp"),e);}
double __sr_modf(double a, double* i) {return std::modf(__sr_guard(a,"modf"),i);}
double __sr_atan2(double a, double b) {
  if (!boxed(a)&&a==0&&!boxed(b)&&b>0) return 0; Poly t,u;
  if (decide(EQ,add(mul(polyOf(a,t),polyOf(a,t)),mul(polyOf(b,u),polyOf(b,u))),"angle of zero")) return 0;
  return box(ufPoly("atan2",{polyOf(a,t),polyOf(b,u)}));}

// complex functions: (re,im) pairs in xmm registers, the ABI of _Complex double
typedef _Complex double CD;
static CD mk(double a, double b) {CD r; memcpy(&r,&a,8); memcpy((char*)&r+8,&b,8); return r;}
static void un_(CD z, double& a, double& b) {memcpy(&a,&z,8); memcpy(&b,(char*)&z+8,8);}
CD __sr_divdc3(double a, double b, double c, double d) {
  bool zd=!boxed(d)&&d==0, zc=!boxed(c)&&c==0;
  if (zd) return mk(__sr_fdiv(a,c),__sr_fdiv(b,c));
  if (zc) return mk(__sr_fdiv(b,d),__sr_fneg(__sr_fdiv(a,d)));
  double n=__sr_fadd(__sr_fmul(c,c),__sr_fmul(d,d));
  return mk(__sr_fdiv(__sr_fadd(__sr_fmul(a,c),__sr_fmul(b,d)),n),__sr_fdiv(__sr_fsub(__sr_fmul(b,c),__sr_fmul(a,d)),n));
}
CD __sr_muldc3(double a, double b, double c, double d) {return mk(__sr_fsub(__sr_fmul(a,c),__sr_fmul(b,d)),__sr_fadd(__sr_fmul(a,d),__sr_fmul(b,c)));}
double __sr_cabs(double a, double b) {return __sr_hypot(a,b);}
double __sr_carg(double a, double b) {return __sr_atan2(b,a);}
CD __sr_cexp(double a, double b) {double e=__sr_exp(a); return mk(__sr_fmul(e,__sr_cos(b)),__sr_fmul(e,__sr_sin(b)));}
CD __sr_clog(double a, double b) {return mk(__sr_log(__sr_cabs(a,b)),__sr_carg(a,b));}
CD __sr_csqrt(double a, double b) {if (!boxed(b)&&b==0&&__sr_fcmp(3,a,0)) return mk(__sr_sqrt(a),0); fatal("csqrt");}
CD __sr_cpow(double a, double b, double c, double d) {
  if (!boxed(c)&&!boxed(d)&&d==0&&c==std::floor(c)&&std::fabs(c)<64) {double re=1,im=0; for (int i=0;i<std::fabs(c);i++) {double x=__sr_fsub(__sr_fmul(re,a),__sr_fmul(im,b)); im=__sr_fadd(__sr_fmul(re,b),__sr_fmul(im,a)); re=x;} if (c<0) return __sr_divdc3(1,0,re,im); return mk(re,im);}
  fatal("cpow with non-integer exponent");
}
CD __sr_csin(double a, double b) {if (!boxed(b)&&b==0) return mk(__sr_sin(a),0); fatal("csin");}
CD __sr_ccos(double a, double b) {if (!boxed(b)&&b==0) return mk(__sr_cos(a),0); fatal("ccos");}
CD __sr_cproj(double a, double b) {return mk(a,b);}
CD __sr_conj(double a, double b) {return mk(a,__sr_fneg(b));}

void __sr_enter(char* flag, const char* name) {if (*flag) return; *flag=1; entered.push_back(name);}

// ----------------------------------------------------------------------- harness interface
static double newVar(const char* name, bool nonneg, bool pos) {
  string n; for (const char* p=name; *p; ++p) n += (isalnum((unsigned char)*p)||*p=='_') ? *p : '_';
  int k=varCount[n]++; if (k) n+="__"+std::to_string(k);
  uint32_t a=getAtom("V:"+n,[&]{Atom A; A.k=VAR; A.name=n; A.nonneg=nonneg; A.pos=pos; return A;});
  varOrder.push_back(a); return box(atomPoly(a));
}
double sr_var(const char* n) {return newVar(n,false,false);}
double sr_pos(const char* n) {return newVar(n,false,true);}
double sr_nonneg(const char* n) {return newVar(n,true,false);}
int sr_choice(int n, const char* name) {
  int v=n-1;
  for (int i=0; i<n-1; ++i) if (branchFork()) {v=i; break;}
  choices.push_back({name,v}); return v;
}
static void assume(Op op, double a, double b) {Poly t,u; Poly d=sub(polyOf(a,t),polyOf(b,u)); mpq_class q; if (isRealConst(d,q)) {int s=sgn(q); bool ok = op==EQ?s==0:op==NE?s!=0:op==LT?s<0:s<=0; if (!ok) _exit(0); return;} pc.push_back({op,d}); if (op==EQ) newEquality(d);}
void sr_assume_lt(double a, double b) {assume(LT,a,b);}
void sr_assume_le(double a, double b) {assume(LE,a,b);}
void sr_assume_ne(double a, double b) {assume(NE,a,b);}
void sr_assume_eq(double a, double b) {assume(EQ,a,b);}
static bool finiteOrBoxed(double a) {return boxed(a)||std::isfinite(a);}
static void assertion(Op op, double a, double b, const char* l) {
  ++nAsserts;
  if (!finiteOrBoxed(a)||!finiteOrBoxed(b)) {
    bool eq = !boxed(a)&&!boxed(b)&&(a==b || (std::isnan(a)&&std::isnan(b)));
    if (op==LE||op==LT) eq=__sr_fcmp(op==LE?5:4,a,b);
    ++nBoolAsserts; if (!eq) boolFails.push_back({string(l)+" (non-finite)"}); return;
  }
  Poly t,u; pending.push_back({op,polyOf(a,t),polyOf(b,u),l});
}
void sr_eq_(double a, double b, const char* l) {assertion(EQ,a,b,l);}
void sr_le_(double a, double b, const char* l) {assertion(LE,a,b,l);}
void sr_lt_(double a, double b, const char* l) {assertion(LT,a,b,l);}
void sr_check_(int c, const char* l) {++nBoolAsserts; if (!c) boolFails.push_back({l});}
void sr_scenario(const char* n) {notes.push_back(n);}
int sr_is_native() {return 0;}
int sr_thorough() {return gThorough;}
} // extern "C"

SrReg* sr_registry=nullptr;

int main(int argc, char** argv) {
  if (const char* s=getenv("SR_OUT")) outFile=s; else outFile="/tmp/sr_out.jsonl";
  if (const char* s=getenv("SR_TMP")) tmpDir=s; else tmpDir="/tmp";
  if (const char* s=getenv("SR_SOLVER")) solver=s;
  if (const char* s=getenv("SR_SOLVER2")) solver2=s;
  if (const char* s=getenv("SR_TIMEOUT")) timeoutS=atoi(s);
  if (const char* s=getenv("SR_MAXPATHS")) maxPaths=atol(s);
  if (const char* s=getenv("VERIF_TIER")) gThorough=string(s)=="thorough";
  shared=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); shared->paths=1;
  if (argc>1 && string(argv[1])=="--list") {for (SrReg* r=sr_registry; r; r=r->next) puts(r->name); return 0;}
  string want=argc>2 ? argv[2] : "";
  for (SrReg* r=sr_registry; r; r=r->next) if (want==r->name) {
    scenarioName=r->name;
    string exc;
    try {r->f();}
    catch (const std::exception& e) {exc=string("exception: ")+e.what();}
    catch (...) {exc="exception of unknown type";}
    if (!exc.empty()) {++nBoolAsserts; boolFails.push_back({exc});}
    finishPath();
    fflush(nullptr);
    _exit(0);
  }
  fprintf(stderr,"no such scenario\n"); return 4;
}
__attribute__((weak)) std::string versionHelper() {return "version\n";} // what the build system generates
