// Native counterpart of the engine: runs a scenario on the uninstrumented code at one concrete point (replay of a counterexample).
// usage: bin --run SCENARIO POINTFILE      POINTFILE: lines "v NAME VALUE" and "c NAME VALUE"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <vector>
using std::string;
struct SrReg {const char* name; void (*f)(); SrReg* next;};
SrReg* sr_registry=nullptr;
static std::map<string,double> vars; static std::vector<std::pair<string,int>> chs;
static std::map<string,int> varCount; static long fails=0; static string failLabels; static bool dump=false;
static double tolRel=1e-7;
extern "C" {
static double get(const char* name) {
  string n; for (const char* p=name; *p; ++p) n += (isalnum((unsigned char)*p)||*p=='_') ? *p : '_';
  int k=varCount[n]++; if (k) n+="__"+std::to_string(k);
  auto it=vars.find(n); if (it==vars.end()) return .5; return it->second;
}
double sr_var(const char* n) {return get(n);} double sr_pos(const char* n) {return get(n);} double sr_nonneg(const char* n) {return get(n);}
int sr_choice(int n, const char* name) { // by name: the order of evaluation of arguments differs between compilers
  for (auto& c : chs) if (c.second>=0 && c.first==name) {int v=c.second; c.second=-1; return v;}
  return n-1;
}
void sr_assume_lt(double a, double b) {if (!(a<b)) printf("ASSUMPTION-NOT-MET %.17g<%.17g\n",a,b);}
void sr_assume_le(double a, double b) {if (!(a<=b+1e-12*(1+std::fabs(b)))) printf("ASSUMPTION-NOT-MET %.17g<=%.17g\n",a,b);}
void sr_assume_ne(double a, double b) {if (a==b) printf("ASSUMPTION-NOT-MET %.17g!=%.17g\n",a,b);}
void sr_assume_eq(double a, double b) {if (std::fabs(a-b)>1e-9*(1+std::fabs(a))) printf("ASSUMPTION-NOT-MET %.17g==%.17g\n",a,b);}
static void rec(bool ok, double a, double b, const char* op, const char* l) {
  if (dump) printf("VAL %.17g %.17g\n",a,b);
  if (!ok) {++fails; if (fails<=20) printf("FAIL %s : %.12g %s %.12g does not hold\n",l,a,op,b);}
}
void sr_eq_(double a, double b, const char* l) {bool nf=std::isnan(a)&&std::isnan(b); rec(nf||a==b||std::fabs(a-b)<=tolRel*(1+std::fabs(a)+std::fabs(b)),a,b,"==",l);}
void sr_le_(double a, double b, const char* l) {rec(a<=b+tolRel*1e-2*(1+std::fabs(a)+std::fabs(b)),a,b,"<=",l);}
void sr_lt_(double a, double b, const char* l) {rec(a<b,a,b,"<",l);}
void sr_check_(int c, const char* l) {if (!c) {++fails; if (fails<=20) printf("FAIL %s\n",l);}}
void sr_scenario(const char*) {}
int sr_is_native() {return 1;}
int sr_thorough() {const char* s=getenv("VERIF_TIER"); return s && string(s)=="thorough";}
}
int main(int argc, char** argv) {
  if (argc>1 && string(argv[1])=="--list") {for (SrReg* r=sr_registry; r; r=r->next) puts(r->name); return 0;}
  if (argc<4) return 4;
  if (argc>4 && string(argv[4])=="--dump") dump=true;
  std::ifstream f(argv[3]); string line;
  while (std::getline(f,line)) {std::istringstream s(line); string k,n; s>>k; string v,w; s>>n; while (s>>w) {if (!v.empty()) n+=" "+v; v=w;} if (k=="v") vars[n]=strtod(v.c_str(),0); if (k=="c") chs.push_back({n,atoi(v.c_str())});}
  for (SrReg* r=sr_registry; r; r=r->next) if (string(argv[2])==r->name) {
    try {r->f();}
    catch (const std::exception& e) {++fails; printf("FAIL exception: %s\n",e.what());}
    catch (...) {++fails; printf("FAIL exception\n");}
    printf("%s fails=%ld\n",fails ? "REPRODUCED" : "HOLDS",fails); fflush(stdout);
    _exit(fails ? 1 : 0);
  }
  return 4;
}
__attribute__((weak)) std::string versionHelper() {return "version\n";} // what the build system generates
