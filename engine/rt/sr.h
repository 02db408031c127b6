// Harness interface of the symbolic-real engine. The same harness is compiled twice: through the SymReal pass and linked with
// rt.cpp (symbolic run), and natively, linked with native.cpp (replay of a counterexample on the real code).
#ifndef SR_H
#define SR_H
#include <complex>
#include <string>
extern "C" {
double sr_var(const char* name);      // an arbitrary real
double sr_pos(const char* name);      // an arbitrary positive real
double sr_nonneg(const char* name);   // an arbitrary nonnegative real
int  sr_choice(int n, const char* name);                 // an arbitrary value of 0..n-1 (all explored)
void sr_assume_lt(double,double); void sr_assume_le(double,double); void sr_assume_ne(double,double); void sr_assume_eq(double,double);
void sr_eq_(double,double,const char*);
void sr_le_(double,double,const char*);
void sr_lt_(double,double,const char*);
void sr_check_(int,const char*);
void sr_scenario(const char* name);   // label of the scenario currently running (for reports)
int  sr_is_native();

}
inline void sr_eq(double a, double b, const std::string& l) {sr_eq_(a,b,l.c_str());}
inline void sr_eq(std::complex<double> a, std::complex<double> b, const std::string& l) {sr_eq_(a.real(),b.real(),(l+".re").c_str()); sr_eq_(a.imag(),b.imag(),(l+".im").c_str());}
inline void sr_le(double a, double b, const std::string& l) {sr_le_(a,b,l.c_str());}
inline void sr_lt(double a, double b, const std::string& l) {sr_lt_(a,b,l.c_str());}
inline void sr_check(bool b, const std::string& l) {sr_check_(b,l.c_str());}
inline std::complex<double> sr_cvar(const std::string& n) {double a=sr_var((n+"r").c_str()), b=sr_var((n+"i").c_str()); return {a,b};}
struct SrReg {const char* name; void (*f)(); SrReg* next;};
extern SrReg* sr_registry;
extern "C" int sr_thorough();
#define SR_SCENARIO(n) static void srs_##n(); static SrReg sr_reg_##n{#n,srs_##n,nullptr}; static const bool sr_done_##n=[]{sr_reg_##n.next=sr_registry; sr_registry=&sr_reg_##n; return true;}(); static void srs_##n()
#endif
